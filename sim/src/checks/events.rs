//! What the contracts announce: an observer who only applies the emitted events holds the real ledger.
use super::risk::eg;
use super::*;
use crate::chain::*;
use crate::enc::{self, Rd};
use crate::model::*;
use crate::types::*;
use crate::world::*;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
struct PosEv {
    index: BigInt,
    amount: BigInt,
    pos: Pos,
    price: Option<BigInt>,
    caller: Vec<u8>,
    attrs: Vec<u8>,
    /// claims before this announcement
    was: BigInt,
}

/// The observer's copy of the ledger, built from events alone.
#[derive(Default)]
pub struct Events {
    pools: BTreeMap<u8, (BigInt, BigInt, BigInt, BigInt, BigInt)>,
    pos: BTreeMap<(u64, u8, u8), Pos>,
    iso: BTreeMap<u8, BigInt>,
}

fn dec(v: &[u8]) -> BigInt {
    enc::dec_top(v)
}

fn read_pos(v: &[u8]) -> Option<(u8, Pos)> {
    let mut r = Rd::new(v);
    let kind = r.u8();
    let t = tok_by_id(&r.str())?;
    let scaled = r.dec().0;
    let nonce = r.u64();
    let lt = r.dec().0;
    let bonus = r.dec().0;
    let fee = r.dec().0;
    let ltv = r.dec().0;
    if r.bad || !r.done() {
        return None;
    }
    Some((t, Pos { kind, nonce, scaled, lt, bonus, fee, ltv }))
}

impl Events {
    fn load(&mut self, s: &Snap) {
        self.pools.clear();
        self.pos.clear();
        for (t, p) in &s.pools {
            self.pools.insert(*t, (p.si.clone(), p.bi.clone(), p.supplied.clone(), p.borrowed.clone(), p.revenue.clone()));
        }
        for (n, a) in &s.accts {
            for (t, p) in &a.dep {
                self.pos.insert((*n, 1, *t), p.clone());
            }
            for (t, p) in &a.bor {
                self.pos.insert((*n, 2, *t), p.clone());
            }
        }
        self.iso = s.iso_debt.clone();
    }
}

impl Check for Events {
    fn start(&mut self, _w: &mut World, s: &Snap, _spec: &Spec) {
        self.load(s);
    }

    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            if !c.out.logs.is_empty() {
                return bad("event of a failed operation", format!("{}: {} events", c.name(), c.out.logs.len()));
            }
            return Ok(());
        }
        let mut moved: BTreeMap<(u64, u8, u8), Vec<PosEv>> = BTreeMap::new();
        let mut markets: BTreeSet<u8> = BTreeSet::new();
        let mut ceilings: BTreeSet<u8> = BTreeSet::new();
        let mut configs: BTreeSet<u8> = BTreeSet::new();
        let mut oracles: BTreeSet<u8> = BTreeSet::new();
        let mut cats: BTreeSet<u8> = BTreeSet::new();
        let mut cat_assets: BTreeSet<(u8, u8)> = BTreeSet::new();
        let mut params: BTreeMap<u8, Vec<Vec<u8>>> = BTreeMap::new();
        let mut trigger: Vec<u64> = vec![];
        let mut rounds: BTreeMap<String, (u64, BigInt, u64)> = BTreeMap::new();
        let mut votes = 0u32;
        let mut multiply = vec![];
        for l in &c.out.logs {
            let Some(name) = l.topics.first() else { continue };
            let a = &l.topics[1..];
            let tok_of = |i: usize| a.get(i).and_then(|v| tok_by_id(&String::from_utf8_lossy(v)));
            match &name[..] {
                b"update_market_state" => {
                    let Some(t) = tok_of(7) else { return bad("market event", format!("{}: names no market", c.name())) };
                    if w.pools.get(&t) != Some(&l.address) {
                        return bad("market event", format!("{}: event for {} comes from another contract", c.name(), show(t)));
                    }
                    if a.len() != 9 {
                        return bad("market event", format!("{}: {} fields", c.name(), a.len()));
                    }
                    // accruals round time down to whole seconds when announced
                    self.pools.insert(t, (dec(&a[1]), dec(&a[2]), dec(&a[4]), dec(&a[5]), dec(&a[6])));
                    let ts = enc::to_u64(&a[0]);
                    if ts != c.post.now_ms && ts != c.post.now {
                        return bad("market event", format!("{}: {} event dated {} at {}", c.name(), show(t), ts, c.post.now));
                    }
                    markets.insert(t);
                }
                b"update_position" => {
                    let Some((t, p)) = a.get(2).and_then(|v| read_pos(v)) else {
                        return bad("position event", format!("{}: malformed", c.name()));
                    };
                    if l.address != w.ctl {
                        return bad("position event", format!("{}: from another contract", c.name()));
                    }
                    let k = (p.nonce, p.kind, t);
                    moved.entry(k).or_default().push(PosEv {
                        index: dec(&a[0]),
                        amount: dec(&a[1]),
                        pos: p.clone(),
                        was: self.pos.get(&k).map(|q| q.scaled.clone()).unwrap_or_default(),
                        price: a.get(3).map(|v| dec(v)),
                        caller: a.get(4).cloned().unwrap_or_default(),
                        attrs: a.get(5).cloned().unwrap_or_default(),
                    });
                    if p.scaled.is_zero() {
                        self.pos.remove(&k);
                    } else {
                        self.pos.insert(k, p);
                    }
                }
                b"update_debt_ceiling" => {
                    let Some(t) = tok_of(0) else { return bad("ceiling event", format!("{}: names no market", c.name())) };
                    self.iso.insert(t, dec(&a[1]));
                    ceilings.insert(t);
                }
                b"update_asset_config" => {
                    let Some(t) = tok_of(0) else { return bad("settings event", format!("{}: names no market", c.name())) };
                    let ctl = w.ctl.clone();
                    let v = w.ch.query(&ctl, "getAssetConfig", vec![a[0].clone()]).values;
                    // the last one of the transaction is the one in force
                    configs.insert(t);
                    let last = c.out.logs.iter().rev().find(|m| m.topics.first() == Some(name) && m.topics.get(1) == Some(&a[0]));
                    if last.map(|m| &m.topics[2]) != v.first() {
                        return bad("settings event", format!("{}: announced settings of {} are not in force", c.name(), show(t)));
                    }
                }
                b"update_asset_oracle" => {
                    let Some(t) = tok_of(0) else { continue };
                    let ctl = w.ctl.clone();
                    let v = w.ch.query(&ctl, "getTokenOracle", vec![a[0].clone()]).values;
                    oracles.insert(t);
                    if Some(&a[1]) != v.first() {
                        return bad("oracle event", format!("{}: announced oracle of {} is not in force", c.name(), show(t)));
                    }
                }
                b"update_e_mode_category" => {
                    let mut r = Rd::new(&a[0]);
                    let id = r.u8();
                    let got = (r.dec().0, r.dec().0, r.dec().0, r.bool());
                    let Some(e) = c.spec.emodes.get(&id) else {
                        return bad("category event", format!("{}: unknown category {}", c.name(), id));
                    };
                    let want = (BigInt::from(e.ltv), BigInt::from(e.lt), BigInt::from(e.bonus), e.deprecated);
                    if got != want {
                        return bad("category event", format!("{}: category {} announced as {:?}, is {:?}", c.name(), id, got, want));
                    }
                    cats.insert(id);
                }
                b"update_e_mode_asset" => {
                    let (Some(t), Some(id)) = (tok_of(0), a.get(2).map(|v| enc::to_u64(v) as u8)) else { continue };
                    cat_assets.insert((id, t));
                    if matches!(c.op, Op::EmAddAsset { .. } | Op::EmEditAsset { .. }) {
                        let mut r = Rd::new(&a[1]);
                        let got = (r.bool(), r.bool());
                        let want = c.spec.emodes.get(&id).and_then(|e| e.assets.get(&t)).cloned();
                        if want != Some(got) {
                            return bad("category event", format!("{}: {} in {} announced {:?}, is {:?}", c.name(), show(t), id, got, want));
                        }
                    }
                }
                b"update_market_params" | b"create_market_params" => {
                    if let Some(t) = tok_of(0) {
                        params.insert(t, a[1..].to_vec());
                    }
                }
                b"emit_trigger_clean_bad_debt" => trigger.push(enc::to_u64(&a[0])),
                b"new_round" => {
                    let k = String::from_utf8_lossy(&a[0]).to_string();
                    let mut r = Rd::new(&a[3]);
                    let (price, ts) = (r.big(), r.u64());
                    rounds.insert(k, (enc::to_u64(&a[2]), price, ts));
                }
                b"add_submission" => votes += 1,
                b"initial_multiply_payment" => multiply.push((tok_of(0), dec(&a[1]), dec(&a[2]), enc::to_u64(&a[3]))),
                _ => {}
            }
        }
        st.judge("events", (c.name(), markets.len(), moved.len(), ceilings.len(), configs.len(), trigger.len(), rounds.len()));

        // markets
        if let Op::CreateMarket { m } = c.op {
            self.pools.entry(m.tok).or_insert_with(|| {
                c.post.pools.get(&m.tok).map(|p| (p.si.clone(), p.bi.clone(), p.supplied.clone(), p.borrowed.clone(), p.revenue.clone())).unwrap_or_default()
            });
            // the tracker starts at nothing without an announcement
            if let Some(v) = c.post.iso_debt.get(&m.tok) {
                self.iso.entry(m.tok).or_insert_with(|| v.clone());
            }
        }
        for (t, p) in &c.post.pools {
            let Some((si, bi_, su, bo, re)) = self.pools.get(t) else {
                return bad("market never announced", format!("{}: {}", c.name(), show(*t)));
            };
            if (si, bi_, su, bo, re) != (&p.si, &p.bi, &p.supplied, &p.borrowed, &p.revenue) {
                return bad(
                    "market events drift from the market",
                    format!("{}: {} announced {:?}, is {:?}", c.name(), show(*t), (si, bi_, su, bo, re), (&p.si, &p.bi, &p.supplied, &p.borrowed, &p.revenue)),
                );
            }
        }
        // cash: the last announcement of a market states its cash
        for t in &markets {
            let Some(l) = c.out.logs.iter().rev().find(|m| {
                m.topics.first().map(|x| &x[..]) == Some(b"update_market_state") && m.address == w.pools[t]
            }) else {
                continue;
            };
            let got = dec(&l.topics[4]);
            let p = &c.post.pools[t];
            if got != p.bal {
                return bad("announced cash", format!("{}: {} announced {} in cash, has {}", c.name(), show(*t), got, p.bal));
            }
        }
        // positions
        let mut real: BTreeMap<(u64, u8, u8), &Pos> = BTreeMap::new();
        for (n, a) in &c.post.accts {
            for (t, p) in &a.dep {
                real.insert((*n, 1, *t), p);
            }
            for (t, p) in &a.bor {
                real.insert((*n, 2, *t), p);
            }
        }
        for (k, p) in &real {
            match self.pos.get(k) {
                Some(q) if q == *p => {}
                // an empty position may remain recorded
                None if p.scaled.is_zero() => {}
                q => {
                    return bad(
                        "position events drift from the position",
                        format!("{}: account {} {} {}: announced {:?}, is {:?}", c.name(), k.0, if k.1 == 1 { "deposit" } else { "debt" }, show(k.2), q, p),
                    )
                }
            }
        }
        for k in self.pos.keys() {
            if !real.contains_key(k) {
                return bad("closed position never announced", format!("{}: account {} {} {}", c.name(), k.0, k.1, show(k.2)));
            }
        }
        // what each announcement says about the operation
        let me = addr_user(c.from);
        let simple = matches!(c.op, Op::Supply { .. } | Op::Withdraw { .. } | Op::Borrow { .. } | Op::Repay { .. } | Op::Liquidate { .. });
        let acc = c.acc0();
        for (k, evs) in &moved {
            let (n, kind, t) = *k;
            let p1 = &c.post.pools[&t];
            let last = evs.last().unwrap();
            let ix = if kind == 1 { &p1.si } else { &p1.bi };
            if simple && &last.index != ix && !matches!(c.op, Op::Liquidate { .. }) {
                return bad("announced index", format!("{}: {} of account {}: {} instead of {}", c.name(), show(t), n, last.index, ix));
            }
            if simple && last.caller != me.as_bytes() {
                return bad("announced caller", format!("{}: {} of account {}", c.name(), show(t), n));
            }
            if let Some(a) = c.post.accts.get(&n) {
                let mut r = Rd::new(&last.attrs);
                let iso = r.bool();
                let emode = r.u8();
                let mode = r.u8();
                let it = if r.u8() == 1 { tok_by_id(&r.str()) } else { None };
                if (iso, emode, mode, it) != (a.iso, a.emode, a.mode, a.iso_tok) {
                    return bad("announced attributes", format!("{}: account {}", c.name(), n));
                }
            }
            if let (Some(q), Some(p)) = (&last.price, w.px_egld(t)) {
                if q != &p {
                    return bad("announced price", format!("{}: {} at {} instead of {}", c.name(), show(t), q, p));
                }
            }
            if simple {
                let s0 = scaled(c.pre, n, t, kind == 2);
                let s1 = scaled(c.post, n, t, kind == 2);
                let d = (amt(&s1, ix) - amt(&s0, ix)).abs();
                let sum: BigInt = evs.iter().map(|e| e.amount.clone()).sum();
                let sum = sum * unit(t);
                let tol = unit(t) * BigInt::from(1 + evs.len()) + ix * BigInt::from(2 * evs.len()) / ray() + BigInt::from(1000);
                st.judge("announced amounts", (c.name(), kind, evs.len(), bits(&sum) / 4));
                if (&sum - &d).abs() > tol {
                    return bad(
                        "announced amount",
                        format!("{}: account {} {} {}: announced {} moved {} (RAY units; tolerance {}; {} to {} at {})", c.name(), n, if kind == 1 { "deposit" } else { "debt" }, show(t), sum, d, tol, s0, s1, ix),
                    );
                }
            }
        }
        // strategies act several times on one position: each announcement by itself
        if matches!(c.op, Op::SwapDebt { .. } | Op::SwapColl { .. } | Op::RepayColl { .. } | Op::Multiply { .. }) {
            for ((n, kind, t), evs) in &moved {
                let p1 = &c.post.pools[t];
                let ix = if *kind == 1 { &p1.si } else { &p1.bi };
                for e in evs {
                    let d = (amt(&e.pos.scaled, ix) - amt(&e.was, ix)).abs();
                    let sum = &e.amount * unit(*t);
                    let tol = unit(*t) * BigInt::from(2) + ix * BigInt::from(2) / ray() + BigInt::from(1000);
                    st.judge("announced strategy amounts", (c.name(), *kind, evs.len(), bits(&sum) / 4));
                    if (&sum - &d).abs() > tol {
                        return bad(
                            "announced amount",
                            format!("{}: account {} {} {}: announced {} moved {} (RAY units; tolerance {})", c.name(), n, if *kind == 1 { "deposit" } else { "debt" }, show(*t), sum, d, tol),
                        );
                    }
                }
            }
        }
        // isolated-debt trackers
        for (t, v) in &c.post.iso_debt {
            if self.iso.get(t) != Some(v) {
                return bad("ceiling events drift from the tracker", format!("{}: {} announced {:?}, is {}", c.name(), show(*t), self.iso.get(t), v));
            }
        }
        // settings
        let need = |ok: bool, what: &str| -> R {
            if ok {
                Ok(())
            } else {
                bad("change never announced", format!("{}: {}", c.name(), what))
            }
        };
        let rates_of = |t: u8| -> Vec<Vec<u8>> {
            let r = &c.spec.rates[&t];
            let mut v: Vec<Vec<u8>> = [r.max, r.base, r.s1, r.s2, r.s3, r.mid, r.opt].iter().map(|x| enc::big(&bu(*x))).collect();
            v.push(enc::u(r.rf));
            v
        };
        match c.op {
            Op::EditAsset { tok, .. } => need(configs.contains(tok), "settings of a market")?,
            Op::Tolerance { tok, .. } => need(oracles.contains(tok), "oracle tolerance")?,
            Op::EmAdd { .. } => need(cats.contains(&c.spec.last_em), "new category")?,
            Op::EmEdit { id, .. } | Op::EmRemove { id } => need(cats.contains(id), "category")?,
            Op::EmAddAsset { tok, id, .. } | Op::EmEditAsset { tok, id, .. } | Op::EmRemoveAsset { tok, id } => {
                need(cat_assets.contains(&(*id, *tok)), "asset of a category")?
            }
            Op::PoolParams { tok, .. } => {
                need(params.contains_key(tok), "market parameters")?;
                if params[tok][..] != rates_of(*tok)[..] {
                    return bad("announced parameters", format!("{}: {:?} instead of {:?}", show(*tok), params[tok], rates_of(*tok)));
                }
            }
            Op::CreateMarket { m } => {
                need(params.contains_key(&m.tok), "new market")?;
                let p = &params[&m.tok];
                let mut want = rates_of(m.tok);
                want.push(w.pools[&m.tok].as_bytes().to_vec());
                let ctl = w.ctl.clone();
                want.extend(w.ch.query(&ctl, "getAssetConfig", vec![enc::s(tid(m.tok))]).values);
                if p != &want {
                    return bad("announced parameters", format!("new market {}: {:?} instead of {:?}", show(m.tok), p, want));
                }
            }
            _ => {}
        }
        // feeds
        for (k, r) in &c.spec.agg.rounds {
            let old = c.spec0.agg.rounds.get(k);
            let ev = rounds.get(k);
            if old == Some(r) {
                if ev.is_some() {
                    return bad("round announced", format!("{}: {} has no new round", c.name(), k));
                }
                continue;
            }
            let want = (r.id as u64, bi(r.price), r.ts);
            if ev != Some(&want) {
                return bad("round announced", format!("{}: {}: {:?} instead of {:?}", c.name(), k, ev, want));
            }
        }
        if matches!(c.op, Op::Submit { .. } | Op::SubmitBatch { .. }) {
            let n = |s: &Spec| s.agg.nodes.values().map(|v| v.1).sum::<u64>();
            if votes as u64 != n(c.spec) - n(c.spec0) {
                return bad("votes announced", format!("{}: {} announced, {} counted", c.name(), votes, n(c.spec) - n(c.spec0)));
            }
        }
        // a liquidation that leaves bad debt calls for its write-off
        if let Op::Liquidate { nonce, .. } = c.op {
            let px = prices(w);
            if let (Some(a), Some(eu)) = (c.post.accts.get(nonce), w.px_usd(WEGLD)) {
                if let Some(r) = risk(a, &c.acc1(), &px) {
                    let usd = |v: &BigInt| -> f64 { eg(v) * f(&eu) / 1e18 };
                    let (cu, du) = (usd(&r.coll), usd(&r.debt));
                    let said = trigger.contains(nonce);
                    st.judge("call for a write-off", (said, (cu * 2.0) as i64, (du / cu.max(1e-9) * 4.0) as i64));
                    let pre = c.pre.accts.get(nonce).and_then(|a| risk(a, &acc, &px)).map(|r| usd(&r.coll) + usd(&r.debt)).unwrap_or(0.0);
                    // (the call is made on amounts before they are rounded to whole token units)
                    let units: f64 = c.pre.accts.get(nonce).map(|a| {
                        a.dep.keys().chain(a.bor.keys()).map(|t| px.get(t).map(|p| f(p) / 1e18 * f(&eu) / 1e18).unwrap_or(0.0) / 10f64.powi(tdec(*t) as i32)).sum()
                    }).unwrap_or(0.0);
                    let hair = 1e-9 * pre + 1e-6 + 4.0 * units;
                    if said && (cu > 5.0 + hair || du < cu - hair) {
                        return bad("write-off called for", format!("account {} owes {} USD with {} USD of collateral", nonce, du, cu));
                    }
                    if !said && cu < 5.0 - hair && du > cu + hair {
                        return bad("write-off not called for", format!("account {} owes {} USD with {} USD of collateral", nonce, du, cu));
                    }
                }
            }
        }
        if let Op::Multiply { nft, pays, collat, .. } = c.op {
            for (t, amount, _usd, n) in &multiply {
                st.judge("initial payment", (*t, bits(amount) / 8));
                if *n != nft.unwrap_or(c.pre.last_nonce + 1) {
                    return bad("initial payment announced", format!("for account {}", n));
                }
                let direct: Vec<&(u8, u128)> = pays.iter().filter(|x| x.0 == *collat).collect();
                if direct.len() == 1 && pays.len() == 1 && (*t != Some(*collat) || amount != &bi(direct[0].1)) {
                    return bad("initial payment announced", format!("{:?} {} instead of {:?}", t, amount, direct[0]));
                }
            }
        } else if !multiply.is_empty() && !matches!(c.op, Op::Flash { .. } | Op::Raw { .. }) {
            return bad("initial payment announced", c.name());
        }
        Ok(())
    }
}
