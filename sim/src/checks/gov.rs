//! Price committee, pause switch, access control, configuration.
use super::*;
use crate::enc::{self, Rd};
use crate::spec::AggSpec;
use num_traits::One;
use std::collections::BTreeSet;

fn tick(t: u8) -> &'static str {
    TOKS[t as usize].tick
}
fn agg_op(op: &Op) -> bool {
    matches!(
        op,
        Op::Submit { .. }
            | Op::SubmitBatch { .. }
            | Op::AggPause
            | Op::AggUnpause
            | Op::AggUpgrade
            | Op::AggAdd { .. }
            | Op::AggRemove { .. }
            | Op::AggCount { .. }
    )
}

struct Feed {
    from: String,
    to: String,
    id: u32,
    ts: u64,
    price: BigInt,
}
fn feed(v: &[u8]) -> Feed {
    let mut r = Rd::new(v);
    let id = r.u32();
    let from = r.str();
    let to = r.str();
    let ts = r.u64();
    let price = r.big();
    Feed { from, to, id, ts, price }
}
/// what the aggregator publishes for a feed; None when it publishes nothing
fn published(w: &mut World, t: &str) -> Option<Feed> {
    let agg = w.agg.clone();
    let o = w.ch.query(&agg, "latestPriceFeed", vec![enc::s(t), enc::s("USD")]);
    if o.ok {
        o.values.first().map(|v| feed(v))
    } else {
        None
    }
}
/// published feeds, looking through a pause
fn all_published(w: &mut World, paused: bool) -> BTreeMap<String, Option<Feed>> {
    let f = if paused { Some(w.fork()) } else { None };
    if paused {
        w.exec(OWNER, &Op::AggUnpause, None);
    }
    let m = FEEDS.iter().map(|t| (tick(*t).to_string(), published(w, tick(*t)))).collect();
    if let Some(f) = f {
        w.unfork(f);
    }
    m
}
fn registered(w: &mut World, max: u8) -> (BTreeSet<u8>, usize) {
    let agg = w.agg.clone();
    let o = w.ch.query(&agg, "getOracles", vec![]);
    let mut s = BTreeSet::new();
    for v in &o.values {
        for i in 0..max {
            if enc::a(&user_addr(NODE0 + i)) == *v {
                s.insert(i);
            }
        }
    }
    (s, o.values.len())
}

// ------------------------------------------------------------------ P26
#[derive(Default)]
pub struct Aggregator;
impl Aggregator {
    fn compare(w: &mut World, sp: &AggSpec, what: &str) -> R {
        let m = all_published(w, sp.paused);
        for t in FEEDS {
            let k = tick(t);
            match (&m[k], sp.rounds.get(k)) {
                (None, None) => {}
                (Some(f), Some(r)) => {
                    if f.price != bi(r.price) || f.ts != r.ts || f.id != r.id || f.from != k || f.to != "USD" {
                        return bad(
                            "published round",
                            format!(
                                "{}: {} round {} price {} at {}, expected round {} price {} at {}",
                                what, k, f.id, f.price, f.ts, r.id, r.price, r.ts
                            ),
                        );
                    }
                }
                (a, b) => {
                    return bad(
                        "published round",
                        format!("{}: {} published: {}, expected: {}", what, k, a.is_some(), b.is_some()),
                    )
                }
            }
        }
        if sp.paused {
            for t in FEEDS {
                if published(w, tick(t)).is_some() {
                    return bad("paused feed readable", format!("{}: {}", what, tick(t)));
                }
            }
        } else {
            // the batch view returns the known pairs, in order
            let agg = w.agg.clone();
            let pair = |k: &str| {
                let mut v = enc::nested(k.as_bytes());
                v.extend(enc::nested(b"USD"));
                v
            };
            let mut args: Vec<Vec<u8>> = FEEDS.iter().map(|t| pair(tick(*t))).collect();
            args.insert(2, pair("NOPE"));
            let o = w.ch.query(&agg, "latestRoundData", args);
            let got: Vec<(String, BigInt, u32)> = o.values.iter().map(|v| feed(v)).map(|f| (f.from, f.price, f.id)).collect();
            let want: Vec<(String, BigInt, u32)> = FEEDS
                .iter()
                .filter_map(|t| sp.rounds.get(tick(*t)).map(|r| (tick(*t).to_string(), bi(r.price), r.id)))
                .collect();
            if !o.ok || got != want {
                return bad("batch view", format!("{}: {:?} vs {:?}", what, got, want));
            }
        }
        let agg = w.agg.clone();
        let o = w.ch.query(&agg, "submission_count", vec![]);
        let q = o.values.first().map(|v| enc::to_u64(v)).unwrap_or(0);
        if q != sp.quorum {
            return bad("quorum", format!("{}: quorum is {}, expected {}", what, q, sp.quorum));
        }
        let max = (w.cfg.nodes + 4).max(sp.nodes.keys().last().map(|n| n + 1).unwrap_or(0));
        let (reg, n) = registered(w, max);
        let want: BTreeSet<u8> = sp.nodes.keys().cloned().collect();
        if reg != want || n != want.len() {
            return bad("registered nodes", format!("{}: {:?} ({}), expected {:?}", what, reg, n, want));
        }
        Ok(())
    }
}
impl Check for Aggregator {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !agg_op(c.op) {
            return Ok(());
        }
        let a = &c.spec0.agg;
        let now = c.post.now;
        let node = c.from.wrapping_sub(NODE0);
        let want = match c.op {
            Op::Submit { ts, .. } => !a.paused && c.from >= NODE0 && a.nodes.contains_key(&node) && AggSpec::ts_ok(*ts, now),
            Op::SubmitBatch { subs } => {
                !a.paused && c.from >= NODE0 && a.nodes.contains_key(&node) && subs.iter().all(|s| AggSpec::ts_ok(s.1, now))
            }
            Op::AggRemove { count, nodes } => {
                let left = a.nodes.keys().filter(|n| !nodes.contains(n)).count() as u64;
                c.from == OWNER && *count >= 1 && *count <= left.min(50)
            }
            Op::AggCount { count } => c.from == OWNER && *count >= 1 && *count <= (a.nodes.len() as u64).min(50),
            _ => c.from == OWNER,
        };
        if c.abort {
            if c.out.ok && !want {
                return bad("accepted", format!("{:?} from {}", c.op, c.from));
            }
        } else if c.out.ok != want {
            return bad(
                if want { "refused" } else { "accepted" },
                format!(
                    "{:?} from {} at {}: {} (nodes {:?}, quorum {}, paused {})",
                    c.op,
                    c.from,
                    now,
                    c.out.msg,
                    a.nodes.keys().collect::<Vec<_>>(),
                    a.quorum,
                    a.paused
                ),
            );
        }
        let b = &c.spec.agg;
        let closed = b.rounds != a.rounds;
        let open: Vec<usize> = b.open.values().map(|o| o.1.len()).collect();
        st.judge(
            if closed { "round closed" } else { "aggregator call" },
            (c.name(), c.out.ok, b.quorum, b.nodes.len(), open, closed),
        );
        Self::compare(w, b, &c.name())
    }
    fn end(&mut self, w: &mut World, _s: &Snap, spec: &Spec, _st: &mut Stats) -> R {
        Self::compare(w, &spec.agg, "end of run")
    }
}

// ------------------------------------------------------------------ P27
#[derive(Default)]
pub struct AggLive {
    n: u64,
}
impl AggLive {
    fn attempt(&mut self, w: &mut World, spec: &Spec, st: &mut Stats) -> R {
        self.n += 1;
        if self.n % 4 != 0 {
            return Ok(());
        }
        let a = &spec.agg;
        let reg: Vec<u8> = a.nodes.keys().cloned().collect();
        if (reg.len() as u64) < a.quorum {
            return bad("too few nodes", format!("{} nodes registered, quorum {}", reg.len(), a.quorum));
        }
        let k = tick(FEEDS[(self.n / 4) as usize % FEEDS.len()]);
        let wait = (self.n / 4) % 3 != 0;
        let f = w.fork();
        let r = (|| {
            if a.paused {
                let o = w.exec(OWNER, &Op::AggUnpause, None);
                if !o.ok {
                    return bad("cannot unpause", o.msg);
                }
            }
            // now every registered node is up and on time
            let mut votes: BTreeMap<u8, u128> = BTreeMap::new();
            let open = a.open.get(k).cloned().unwrap_or_default();
            let mut voters = reg.clone();
            let r0 = voters.len();
            voters.rotate_left((self.n as usize / 8) % r0);
            if wait {
                let (n, r) = (w.ch.now(), w.ch.st().current_block_info.block_round);
                w.ch.set_time(n + 1801, r + 301);
                voters.truncate(a.quorum as usize);
            } else {
                if w.ch.now() <= open.0 + 1800 || open.1.is_empty() {
                    votes = open.1.clone();
                }
                if voters.iter().all(|v| votes.contains_key(v)) {
                    // all have spoken in this round; it expires first
                    return Ok(());
                }
            }
            let now = w.ch.now();
            let id0 = published(w, k).map(|f| f.id as i64).unwrap_or(-1);
            let base: u128 = 1_000_000 + self.n as u128 * 7;
            let mut done = None;
            for (i, v) in voters.iter().enumerate() {
                let price = base + ((i as u128 * 7919) % 101);
                let o = w.exec(NODE0 + v, &Op::Submit { tick: k.to_string(), ts: now, price }, None);
                if !o.ok {
                    return bad("honest vote refused", format!("node {} for {}: {}", v, k, o.msg));
                }
                let fresh = !votes.contains_key(v);
                votes.entry(*v).or_insert(price);
                // a quorum lowered meanwhile takes effect with the next new vote
                if fresh && votes.len() as u64 >= a.quorum {
                    let mut x: Vec<u128> = votes.values().cloned().collect();
                    done = Some(AggSpec::median(&mut x));
                    break;
                }
            }
            let Some(want) = done else { return Ok(()) };
            st.judge("feed refreshed", (k.len(), a.quorum, reg.len(), wait, a.paused, open.1.len()));
            match published(w, k) {
                Some(f) if f.ts == now && f.id as i64 == id0 + 1 && f.price == bi(want) => Ok(()),
                Some(f) => bad(
                    "feed not refreshed",
                    format!("{}: round {} price {} at {}, expected round {} price {} at {}", k, f.id, f.price, f.ts, id0 + 1, want, now),
                ),
                None => bad("feed not refreshed", format!("{}: nothing published", k)),
            }
        })();
        w.unfork(f);
        r
    }
}
impl Check for AggLive {
    fn setup(&mut self, refused: &[String]) -> R {
        match refused.iter().find(|m| m.starts_with("agg.")) {
            Some(m) => bad("first quorum refused", m.clone()),
            None => Ok(()),
        }
    }
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        self.attempt(w, c.spec, st)
    }
    fn env(&mut self, w: &mut World, _s: &Snap, _step: &Step, spec: &Spec, st: &mut Stats) -> R {
        self.attempt(w, spec, st)
    }
    fn end(&mut self, w: &mut World, _s: &Snap, spec: &Spec, st: &mut Stats) -> R {
        for _ in 0..24 {
            self.attempt(w, spec, st)?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P28
fn guarded(op: &Op) -> bool {
    matches!(
        op,
        Op::Supply { .. }
            | Op::Withdraw { .. }
            | Op::Borrow { .. }
            | Op::Repay { .. }
            | Op::Liquidate { .. }
            | Op::Flash { .. }
            | Op::UpdThreshold { .. }
            | Op::UpdIdx { .. }
            | Op::Clean { .. }
            | Op::Multiply { .. }
            | Op::SwapDebt { .. }
            | Op::SwapColl { .. }
            | Op::RepayColl { .. }
    )
}
#[derive(Default)]
pub struct Pause {
    paused_ok: Option<bool>,
    toggled: Option<(bool, String)>,
    toggle_err: Option<String>,
}
impl Check for Pause {
    fn before(&mut self, w: &mut World, _s: &Snap, spec: &Spec, from: u8, op: &Op) {
        self.paused_ok = None;
        self.toggled = None;
        self.toggle_err = None;
        if !guarded(op) || spec.paused {
            return;
        }
        let f = w.fork();
        let p = w.exec(OWNER, &Op::PauseCtl, None);
        if !p.ok {
            self.toggle_err = Some(format!("pause: {}", p.msg));
        } else {
            let o = w.exec(from, op, None);
            self.paused_ok = Some(o.ok);
            let u = w.exec(OWNER, &Op::UnpauseCtl, None);
            if !u.ok {
                self.toggle_err = Some(format!("unpause: {}", u.msg));
            } else if !o.ok {
                let o = w.exec(from, op, None);
                self.toggled = Some((o.ok, o.msg));
            }
        }
        w.unfork(f);
    }
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if let Some(e) = self.toggle_err.take() {
            return bad("owner cannot pause", e);
        }
        if matches!(c.op, Op::PauseCtl | Op::UnpauseCtl | Op::UpgradeCtl) {
            if !c.abort && c.out.ok != (c.from == OWNER) {
                return bad("pause control", format!("{} by {}: {}", c.name(), c.from, c.out.msg));
            }
            if c.out.ok {
                st.judge("switch thrown", (c.name(), c.spec0.paused, c.pre.accts.len()));
                if c.pre.accts != c.post.accts || c.pre.pools != c.post.pools || c.pre.bals != c.post.bals || c.pre.iso_debt != c.post.iso_debt {
                    return bad("pause changed state", c.name());
                }
            }
            return Ok(());
        }
        // the price aggregator has a switch of its own
        if matches!(c.op, Op::AggPause | Op::AggUnpause | Op::AggUpgrade) {
            if !c.abort && c.out.ok != (c.from == OWNER) {
                return bad("aggregator pause control", format!("{} by {}: {}", c.name(), c.from, c.out.msg));
            }
            if c.out.ok {
                let agg = w.agg.clone();
                let got = w.ch.query(&agg, "isPaused", vec![]);
                let got = got.values.first().map(|v| !v.is_empty());
                st.judge("aggregator switch thrown", (c.name(), c.spec0.agg.paused));
                if got != Some(c.spec.agg.paused) {
                    return bad("aggregator pause control", format!("after {} the aggregator reports paused = {:?}", c.name(), got));
                }
                if c.pre.accts != c.post.accts || c.pre.pools != c.post.pools || c.pre.bals != c.post.bals {
                    return bad("pause changed state", c.name());
                }
            }
            return Ok(());
        }
        if c.spec0.agg.paused && matches!(c.op, Op::Submit { .. } | Op::SubmitBatch { .. }) {
            st.judge("vote while the aggregator is paused", c.name());
            if c.out.ok {
                return bad("executed while paused", format!("{:?}", c.op));
            }
            return Ok(());
        }
        if !guarded(c.op) {
            return Ok(());
        }
        if c.spec0.paused {
            st.judge("while paused", (c.name(), c.pre.accts.len().min(8)));
            if c.out.ok {
                return bad("executed while paused", format!("{:?}", c.op));
            }
            return Ok(());
        }
        if let Some(ok) = self.paused_ok {
            // what executes normally must be refused once paused
            st.judge(if c.out.ok { "would execute, refused once paused" } else { "refused either way" }, (c.name(), c.out.ok, c.pre.accts.len().min(8)));
            if ok {
                return bad("executed while paused", format!("{:?}", c.op));
            }
        }
        if let (Some((ok, msg)), false) = (&self.toggled, c.abort) {
            if *ok != c.out.ok {
                return bad(
                    "pause not transparent",
                    format!("{:?}: without pause {} {}, after pause and unpause {} {}", c.op, c.out.ok, c.out.msg, ok, msg),
                );
            }
        }
        let _ = w;
        Ok(())
    }
}

// ------------------------------------------------------------------ P31
fn admin(op: &Op) -> bool {
    matches!(
        op,
        Op::EditAsset { .. }
            | Op::CreateMarket { .. }
            | Op::PoolParams { .. }
            | Op::UpgradePool { .. }
            | Op::Limits { .. }
            | Op::Tolerance { .. }
            | Op::EmAdd { .. }
            | Op::EmEdit { .. }
            | Op::EmRemove { .. }
            | Op::EmAddAsset { .. }
            | Op::EmEditAsset { .. }
            | Op::EmRemoveAsset { .. }
            | Op::PauseCtl
            | Op::UnpauseCtl
            | Op::AggPause
            | Op::AggUnpause
            | Op::AggAdd { .. }
            | Op::AggRemove { .. }
            | Op::AggCount { .. }
            | Op::Rewards { .. }
            | Op::Submit { .. }
            | Op::SubmitBatch { .. }
    )
}
#[derive(Default)]
pub struct Access {
    /// (who, outcome) of the same call by somebody without the right
    tried: Vec<(String, bool)>,
    /// the same unauthorised call, made by the one who may
    rightful: Option<bool>,
    n: u64,
}
impl Check for Access {
    fn before(&mut self, w: &mut World, s: &Snap, _spec: &Spec, from: u8, op: &Op) {
        self.tried.clear();
        self.rightful = None;
        self.n += 1;
        if let Op::Raw { to, func, .. } = op {
            let (addr, f, args, pays) = w.lower(op);
            let who = match to {
                Tgt::Ctl => w.owner.clone(),
                Tgt::Pool(_) | Tgt::Template => w.ctl.clone(),
                Tgt::Agg if func.starts_with("submit") => user_addr(NODE0),
                Tgt::Agg => w.owner.clone(),
                _ => return,
            };
            let k = w.fork();
            for (t, n, a) in &pays {
                if *n == 0 {
                    w.ch.mint(&who, t, a);
                }
            }
            if func == "registerAccountToken" {
                // before the account token exists: the only time the call does anything
                let ctl = w.ctl.clone();
                w.ch.sset(&ctl, b"account", vec![]);
                let k2 = w.fork();
                let fee = [(crate::types::EGLD.to_string(), 0u64, num_bigint::BigUint::from(50_000_000_000_000_000u64))];
                let stranger = user_addr(from);
                w.ch.mint(&stranger, crate::types::EGLD, &fee[0].2);
                let o = w.ch.call(&stranger, &addr, &f, args.clone(), &fee, None);
                self.tried.push(("a user, before the account token exists".into(), o.ok));
                w.unfork(k2);
                w.ch.mint(&who, crate::types::EGLD, &fee[0].2);
                let o = w.ch.call(&who, &addr, &f, args, &fee, None);
                self.rightful = Some(o.ok);
                w.unfork(k);
                return;
            }
            let o = w.ch.call(&who, &addr, &f, args, &pays, None);
            self.rightful = Some(o.ok);
            w.unfork(k);
            return;
        }
        if !admin(op) {
            return;
        }
        let (addr, f, args, pays) = w.lower(op);
        let submit = matches!(op, Op::Submit { .. } | Op::SubmitBatch { .. });
        let users = w.cfg.users.max(1) as u64;
        let mut whos: Vec<(String, crate::chain::Addr)> = vec![
            ("a user".into(), user_addr(1 + (self.n % users) as u8)),
            ("another contract".into(), w.flash.clone()),
            ("a market contract".into(), w.pools.values().next().cloned().unwrap_or_else(|| w.template.clone())),
            ("the treasury".into(), w.acc.clone()),
        ];
        if !submit {
            whos.push(("an oracle node".into(), user_addr(NODE0)));
        } else {
            whos.push(("the owner".into(), w.owner.clone()));
        }
        if addr != w.ctl {
            whos.push(("the controller".into(), w.ctl.clone()));
        } else {
            whos.push(("the price aggregator".into(), w.agg.clone()));
        }
        // rotate: three strangers per call
        let r = (self.n as usize * 2) % whos.len();
        whos.rotate_left(r);
        for (name, who) in whos.into_iter().take(3) {
            let k = w.fork();
            for (t, n, a) in &pays {
                if *n == 0 {
                    w.ch.mint(&who, t, a);
                }
            }
            let o = w.ch.call(&who, &addr, &f, args.clone(), &pays, None);
            self.tried.push((name, o.ok));
            w.unfork(k);
        }
        let _ = (s, from);
    }
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        for (who, ok) in &self.tried {
            let what = if c.out.ok { "refused to strangers, granted to its holder" } else { "refused to strangers" };
            st.judge(what, (c.name(), who.clone(), c.out.ok));
            if *ok {
                return bad("unauthorised call accepted", format!("{:?} by {}", c.op, who));
            }
        }
        if let Op::Raw { to, func, .. } = c.op {
            let what = match self.rightful {
                Some(true) => "refused to a user, granted to its holder",
                _ => "refused to a user",
            };
            st.judge(what, (c.name(), self.rightful));
            if c.out.ok {
                return bad("unauthorised call accepted", format!("{} on {:?} by user {}", func, to, c.from));
            }
            if c.pre.accts != c.post.accts || c.pre.pools != c.post.pools || c.pre.bals != c.post.bals || c.pre.nfts != c.post.nfts {
                return bad("refused call changed state", c.name());
            }
        }
        if c.out.ok && admin(c.op) && !matches!(c.op, Op::Submit { .. } | Op::SubmitBatch { .. }) && c.from != OWNER {
            return bad("unauthorised call accepted", format!("{:?} by {}", c.op, c.from));
        }
        Ok(())
    }
    fn resnap_failed(&self) -> bool {
        true
    }
}

// ------------------------------------------------------------------ P34
pub struct Config;
fn rate_ok(r: &RateCfg) -> bool {
    r.max > r.base && r.opt > r.mid && r.opt < RAY && r.rf < 10_000
}
fn lower_ratio(tol: u64) -> u64 {
    let up = 10_000 + tol;
    (2 * 100_000_000 + up) / (2 * up)
}
impl Config {
    /// does the request satisfy the rules? None: depends on prices as well
    fn valid(op: &Op, sp: &Spec) -> Option<bool> {
        Some(match op {
            Op::EditAsset { tok, ac } => sp.acs.contains_key(tok) && ((ac.ltv == 0 && ac.lt == 0) || ac.lt > ac.ltv),
            Op::PoolParams { tok, r } => {
                if sp.rates.contains_key(tok) && rate_ok(r) {
                    return None;
                }
                false
            }
            Op::CreateMarket { m } => !sp.acs.contains_key(&m.tok) && rate_ok(&m.rate) && m.ac.lt > m.ac.ltv,
            Op::Limits { .. } | Op::EmAdd { .. } | Op::AggAdd { .. } => true,
            Op::AggCount { count } => *count >= 1 && *count <= 50.min(sp.agg.nodes.len() as u64),
            Op::AggRemove { count, nodes } => {
                let left = sp.agg.nodes.keys().filter(|n| !nodes.contains(n)).count() as u64;
                *count >= 1 && *count <= 50.min(left)
            }
            Op::Tolerance { tok, first, last } => {
                (*tok as usize) < NTOK && (50..=5000).contains(first) && (150..=10_000).contains(last) && last >= first
            }
            Op::EmEdit { id, .. } | Op::EmRemove { id } => sp.emodes.contains_key(id),
            Op::EmAddAsset { tok, id, .. } => {
                sp.acs.contains_key(tok) && sp.emodes.get(id).map(|e| !e.assets.contains_key(tok)).unwrap_or(false)
            }
            Op::EmEditAsset { tok, id, .. } | Op::EmRemoveAsset { tok, id } => {
                sp.emodes.get(id).map(|e| e.assets.contains_key(tok)).unwrap_or(false)
            }
            _ => return None,
        })
    }
    fn readback(w: &mut World, sp: &Spec, what: &str) -> R {
        let ctl = w.ctl.clone();
        let q = |w: &mut World, f: &str, a: Vec<Vec<u8>>| -> Vec<Vec<u8>> {
            let o = w.ch.query(&ctl, f, a);
            if o.ok {
                o.values
            } else {
                vec![]
            }
        };
        let diff = |k: &str, got: String, want: String| -> R {
            if got != want {
                return bad("stored configuration", format!("{}: {} reads {}, expected {}", what, k, got, want));
            }
            Ok(())
        };
        let bps = |d: (BigInt, u32)| -> (BigInt, u32) { d };
        for (t, ac) in &sp.acs {
            let v = q(w, "getAssetConfig", vec![enc::s(tid(*t))]);
            let Some(v) = v.first() else { return diff(show(*t), "nothing".into(), "a configuration".into()) };
            let mut r = Rd::new(v);
            let d4: Vec<_> = (0..4).map(|_| bps(r.dec())).collect();
            let (collat, borrow, emode, iso) = (r.bool(), r.bool(), r.bool(), r.bool());
            let ceil = r.dec();
            let (silo, flash) = (r.bool(), r.bool());
            let ff = r.dec();
            let ib = r.bool();
            let bc = if r.bool() { r.big() } else { BigInt::zero() };
            let sc = if r.bool() { r.big() } else { BigInt::zero() };
            let got = (d4, collat, borrow, emode, iso, ceil, silo, flash, ff, (ib, bc, sc));
            let n4 = |x: u64| (BigInt::from(x), 4u32);
            let em = sp.emodes.values().any(|e| e.assets.contains_key(t));
            let want = (
                vec![n4(ac.ltv), n4(ac.lt), n4(ac.bonus), n4(ac.fee)],
                ac.collat,
                ac.borrow,
                em,
                ac.isolated,
                (bi(ac.ceiling), 18),
                ac.siloed,
                ac.flash,
                n4(ac.flash_fee),
                (ac.iso_borrow, bi(ac.borrow_cap), bi(ac.supply_cap)),
            );
            diff(show(*t), format!("{:?}", got), format!("{:?}", want))?;
            let mut modes: Vec<u8> =
                q(w, "getAssetEModes", vec![enc::s(tid(*t))]).iter().map(|v| enc::to_u64(v) as u8).collect();
            modes.sort();
            let want: Vec<u8> = sp.emodes.iter().filter(|(_, e)| e.assets.contains_key(t)).map(|(i, _)| *i).collect();
            diff(&format!("{} categories", show(*t)), format!("{:?}", modes), format!("{:?}", want))?;
        }
        for (t, rc) in &sp.rates {
            let Some(p) = w.pools.get(t).cloned() else {
                return diff(show(*t), "no market".into(), "a market".into());
            };
            let o = w.ch.query(&p, "getParameters", vec![]);
            let Some(v) = o.values.first() else { return diff(show(*t), "nothing".into(), "parameters".into()) };
            let mut r = Rd::new(v);
            let d: Vec<_> = (0..8).map(|_| r.dec()).collect();
            let id = r.str();
            let dec = r.u32();
            let n = |x: u128| (bi(x), 27u32);
            let want = vec![n(rc.max), n(rc.base), n(rc.s1), n(rc.s2), n(rc.s3), n(rc.mid), n(rc.opt), (BigInt::from(rc.rf), 4)];
            diff(&format!("{} rates", show(*t)), format!("{:?}", (d, id, dec)), format!("{:?}", (want, tid(*t).to_string(), tdec(*t))))?;
        }
        let v = q(w, "getPositionLimits", vec![]);
        diff("limits", format!("{:?}", v.first()), format!("{:?}", Some(vec![sp.borrow_limit, sp.supply_limit])))?;
        // e-mode categories
        let v = q(w, "getEModes", vec![]);
        let mut got = BTreeMap::new();
        for p in v.chunks(2) {
            if p.len() < 2 {
                continue;
            }
            let mut r = Rd::new(&p[1]);
            let id = r.u8();
            let x = (r.dec(), r.dec(), r.dec(), r.bool());
            got.insert((enc::to_u64(&p[0]) as u8, id), x);
        }
        let n4 = |x: u64| (BigInt::from(x), 4u32);
        let want: BTreeMap<_, _> =
            sp.emodes.iter().map(|(i, e)| ((*i, *i), (n4(e.ltv), n4(e.lt), n4(e.bonus), e.deprecated))).collect();
        diff("e-mode categories", format!("{:?}", got), format!("{:?}", want))?;
        for (i, e) in &sp.emodes {
            let v = q(w, "getEModesAssets", vec![enc::u(*i as u64)]);
            let mut got = BTreeMap::new();
            for p in v.chunks(2) {
                if p.len() == 2 {
                    let mut r = Rd::new(&p[1]);
                    got.insert(String::from_utf8_lossy(&p[0]).to_string(), (r.bool(), r.bool()));
                }
            }
            let want: BTreeMap<String, (bool, bool)> = e.assets.iter().map(|(t, f)| (tid(*t).to_string(), *f)).collect();
            diff(&format!("assets of category {}", i), format!("{:?}", got), format!("{:?}", want))?;
        }
        let v = q(w, "lastEModeCategoryId", vec![]);
        diff("last category", format!("{}", v.first().map(|v| enc::to_u64(v)).unwrap_or(0)), format!("{}", sp.last_em))?;
        let agg = w.agg.clone();
        let o = w.ch.query(&agg, "submission_count", vec![]);
        diff("quorum", format!("{}", o.values.first().map(|v| enc::to_u64(v)).unwrap_or(0)), format!("{}", sp.agg.quorum))?;
        let max = (w.cfg.nodes + 4).max(sp.agg.nodes.keys().last().map(|n| n + 1).unwrap_or(0));
        let (reg, n) = registered(w, max);
        let want: BTreeSet<u8> = sp.agg.nodes.keys().cloned().collect();
        diff("nodes", format!("{:?}", (&reg, n)), format!("{:?}", (&want, want.len())))?;
        for t in 0..NTOK as u8 {
            let o = &sp.oracles[t as usize];
            let v = q(w, "getTokenOracle", vec![enc::s(tid(t))]);
            let Some(v) = v.first() else { continue };
            let mut r = Rd::new(v);
            let (base, quote) = (r.str(), r.str());
            let d: Vec<_> = (0..4).map(|_| r.dec()).collect();
            let at = r.addr();
            let kind = (r.u8(), r.u8(), r.u8());
            let dec = r.u32();
            let pair_id = r.u32();
            let stale = r.u64();
            let want = vec![n4(10_000 + o.first), n4(lower_ratio(o.first)), n4(10_000 + o.last), n4(lower_ratio(o.last))];
            diff(
                &format!("{} oracle", show(t)),
                format!("{:?}", (d, dec, stale)),
                format!("{:?}", (want, tdec(t), o.stale)),
            )?;
            // the source as it was configured: kind of price, where it is read, the pair's two tokens
            let s1 = |t: u8| TOKS[t as usize].id.to_string();
            let pair = |bit: u8, q: u8| if w.cfg.flip & bit != 0 { (s1(q), s1(t)) } else { (s1(t), s1(q)) };
            let (wkind, wpair, wid, wat) = match t {
                WEGLD | USDC | USDT => ((3, 1, 1), (s1(WEGLD), s1(USDC)), 0, w.pairs.get(&WEGLD)),
                BTC | XOXNO => {
                    ((o.method, 1, 1), pair(if t == BTC { 1 } else { 2 }, WEGLD), 0, w.pairs.get(&t))
                }
                UTK => ((o.method, 1, 5), pair(4, USDC), 7, w.pairs.get(&t)),
                XEGLD | LEGLD => ((1, 2, if t == XEGLD { 3 } else { 4 }), ("EGLD".into(), "EGLD".into()), 0, w.rates.get(&t)),
                LXOXNO => ((1, 2, 2), (s1(XOXNO), s1(XOXNO)), 0, w.rates.get(&t)),
                LPA => ((4, 3, 1), (s1(WEGLD), s1(USDC)), 0, w.pairs.get(&t)),
                LPB => ((4, 3, 1), (s1(LXOXNO), s1(WEGLD)), 0, w.pairs.get(&t)),
                _ => continue,
            };
            diff(
                &format!("{} price source", show(t)),
                format!("{:?}", (kind, (base, quote), pair_id)),
                format!("{:?}", (wkind, wpair, wid)),
            )?;
            if wat.map(|a| a.as_bytes().to_vec()) != Some(at) {
                return bad("stored configuration", format!("{}: the oracle of {} reads another contract", what, show(t)));
            }
        }
        Ok(())
    }
}
impl Check for Config {
    fn setup(&mut self, refused: &[String]) -> R {
        match refused.first() {
            Some(m) => bad("valid configuration refused", format!("deployment: {}", m)),
            None => Ok(()),
        }
    }
    fn probe(&mut self, w: &mut World, _s: &Snap, spec: &Spec, step: &Step, st: &mut Stats) -> R {
        super::served::served(super::served::Stage::Wiring, w, spec, step, st)
    }
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !matches!(
            c.op,
            Op::EditAsset { .. }
                | Op::CreateMarket { .. }
                | Op::PoolParams { .. }
                | Op::UpgradePool { .. }
                | Op::Limits { .. }
                | Op::Tolerance { .. }
                | Op::EmAdd { .. }
                | Op::EmEdit { .. }
                | Op::EmRemove { .. }
                | Op::EmAddAsset { .. }
                | Op::EmEditAsset { .. }
                | Op::EmRemoveAsset { .. }
                | Op::UpgradeCtl
                | Op::AggAdd { .. }
                | Op::AggCount { .. }
                | Op::AggRemove { .. }
        ) {
            return Ok(());
        }
        let v = Self::valid(c.op, c.spec0);
        if c.from == OWNER {
            match v {
                Some(want) if want != c.out.ok && !(c.abort && want) => {
                    return bad(
                        if want { "valid configuration refused" } else { "invalid configuration accepted" },
                        format!("{:?}: {}", c.op, c.out.msg),
                    );
                }
                None if !c.out.ok && !c.abort => {
                    // may only fail because the market cannot be priced
                    if let Op::PoolParams { tok, .. } = c.op {
                        if w.px_egld(*tok).is_some() {
                            return bad("valid configuration refused", format!("{:?}: {}", c.op, c.out.msg));
                        }
                    }
                }
                _ => {}
            }
        }
        st.judge(
            if c.out.ok { "accepted configuration reads back" } else { "invalid configuration refused" },
            (c.name(), c.out.ok, v, h4(c.op)),
        );
        let _ = BigInt::one();
        Self::readback(w, c.spec, &c.name())
    }
    fn end(&mut self, w: &mut World, _s: &Snap, spec: &Spec, _st: &mut Stats) -> R {
        Self::readback(w, spec, "end of run")
    }
}
fn h4(op: &Op) -> u64 {
    crate::engine::h(&format!("{:?}", op)) % 16
}
