//! Prices: what each token is worth given the feeds and DEX answers, and when a price must not be used.
use super::*;
use crate::enc::{self, Rd};

#[derive(Clone, Debug, Default)]
pub struct Quote {
    /// the value risk-reducing operations and views see; None = nothing can be computed
    pub px: Option<BigInt>,
    /// why a risk-increasing operation must not use it
    pub bad: Option<&'static str>,
    /// a limit sits too close to say on which side it falls
    pub fuzzy: bool,
    pub safe: Option<BigInt>,
    pub agg: Option<BigInt>,
    pub within: (bool, bool),
}
fn hd(a: BigInt, b: &BigInt) -> Option<BigInt> {
    if b.is_zero() {
        return None;
    }
    Some((a + b / BigInt::from(2)) / b)
}
fn wmul(a: &BigInt, b: &BigInt) -> BigInt {
    hd(a * b, &wad()).unwrap()
}
pub struct Ref<'a> {
    pub env: &'a Env,
    pub spec: &'a Spec,
    pub now: u64,
}
impl Ref<'_> {
    fn bound(tol: u64) -> (BigInt, BigInt) {
        let up = BigInt::from(10_000 + tol);
        let lo = hd(BigInt::from(100_000_000u64), &up).unwrap();
        (up, lo)
    }
    /// aggregator price in EGLD and whether it is too old
    fn agg(&self, t: u8, stale: u64) -> (Option<BigInt>, bool) {
        let Some(r) = self.spec.agg.rounds.get(TOKS[t as usize].tick) else { return (None, true) };
        let Some(e) = self.spec.agg.rounds.get("EGLD") else { return (None, true) };
        let x = hd(bi(r.price) * ray(), &bi(e.price)).and_then(|v| hd(v, &p10(9)));
        (x, self.now.saturating_sub(r.ts) >= stale)
    }
    /// (first, last, fuzzy): is b/a inside the two bands
    fn bands(&self, t: u8, a: &BigInt, b: &BigInt) -> Option<(bool, bool, bool)> {
        let o = &self.spec.oracles[t as usize];
        // ratio at 27 digits, then to basis points, nearest
        let r = hd(b * ray(), a)?;
        let bps = hd(r.clone(), &p10(23))?;
        let mut fuzzy = false;
        let mut inb = |tol: u64| -> bool {
            let (u, l) = Self::bound(tol);
            for edge in [&u * BigInt::from(2) + 1, &l * BigInt::from(2) - 1] {
                let e = edge * p10(23) / BigInt::from(2);
                let d = if r > e { &r - &e } else { &e - &r };
                if d < p10(17) {
                    fuzzy = true;
                }
            }
            bps <= u && bps >= l
        };
        let x = inb(o.first);
        let y = inb(o.last);
        Some((x, y, fuzzy))
    }
    pub fn quote(&self, t: u8) -> Quote {
        let o = &self.spec.oracles[t as usize];
        match t {
            WEGLD => Quote { px: Some(wad()), within: (true, true), ..Default::default() },
            XEGLD | LEGLD => {
                let r = bi(self.env.rate.get(&t).cloned().unwrap_or(0));
                let px = if t == LEGLD && r.is_zero() { None } else { Some(r) };
                Quote { px, within: (true, true), ..Default::default() }
            }
            LXOXNO => {
                let q = self.quote(XOXNO);
                let r = bi(self.env.rate.get(&t).cloned().unwrap_or(0));
                Quote {
                    px: q.px.as_ref().map(|p| wmul(&r, p)),
                    bad: q.bad,
                    fuzzy: q.fuzzy,
                    safe: None,
                    agg: None,
                    within: q.within,
                }
            }
            LPA | LPB => self.lp(t),
            _ => {
                let (agg, dex) = match o.method {
                    1 => (false, true),
                    3 => (true, false),
                    _ => (true, true),
                };
                // USDC, USDT have no pair of their own
                let (agg, dex) = if DEXED.contains(&t) { (agg, dex) } else { (true, false) };
                let mut q = Quote { within: (true, true), ..Default::default() };
                if agg {
                    let (p, old) = self.agg(t, o.stale);
                    if p.is_none() {
                        return q;
                    }
                    if old {
                        q.bad = Some("stale feed");
                    }
                    q.agg = p;
                }
                if dex {
                    let Some(Some((num, den))) = self.env.dex.get(&t) else { return Quote { within: (true, true), ..Default::default() } };
                    if self.env.pair_state.get(&t).cloned().unwrap_or(0) != 1 {
                        q.bad = q.bad.or(Some("inactive pair"));
                    }
                    let out = p10(tdec(t)) * bi(*num) / bi(*den);
                    if t == UTK {
                        let u = self.quote(USDC);
                        let Some(pu) = u.px else { return Quote { within: (true, true), ..Default::default() } };
                        q.bad = q.bad.or(u.bad);
                        q.safe = hd(out * pu, &p10(6));
                    } else {
                        q.safe = Some(out);
                    }
                }
                match (q.agg.clone(), q.safe.clone()) {
                    (Some(a), Some(b)) => {
                        let Some((x, y, fz)) = self.bands(t, &a, &b) else { return Quote { within: (true, true), ..Default::default() } };
                        q.within = (x, y);
                        q.fuzzy = fz;
                        q.px = Some(if x {
                            b
                        } else if y {
                            (a + b) / BigInt::from(2)
                        } else {
                            q.bad = q.bad.or(Some("sources disagree"));
                            b
                        });
                    }
                    (Some(a), None) => q.px = Some(a),
                    (None, Some(b)) => q.px = Some(b),
                    _ => {}
                }
                q
            }
        }
    }
    fn lp(&self, t: u8) -> Quote {
        let none = Quote { within: (true, true), ..Default::default() };
        let Some((r0, r1, s)) = self.env.lp.get(&t) else { return none };
        let (a, b) = if t == LPA { (WEGLD, USDC) } else { (LXOXNO, WEGLD) };
        let (qa, qb) = (self.quote(a), self.quote(b));
        let (Some(pa), Some(pb)) = (qa.px.clone(), qb.px.clone()) else { return none };
        let off = |x: u8| -> (Option<BigInt>, bool) {
            let st = self.spec.oracles[x as usize].stale;
            if x == LXOXNO {
                let (p, old) = self.agg(XOXNO, st);
                let r = bi(self.env.rate.get(&x).cloned().unwrap_or(0));
                (p.map(|p| wmul(&r, &p)), old)
            } else {
                self.agg(x, st)
            }
        };
        let ((oa, sa), (ob, sb)) = (off(a), off(b));
        let (Some(oa), Some(ob)) = (oa, ob) else { return none };
        let up = |v: u128, x: u8| bi(v) * p10(18 - tdec(x));
        let k = wmul(&up(*r0, a), &up(*r1, b));
        let val = |pa: &BigInt, pb: &BigInt| -> Option<BigInt> {
            let rx = hd(pb * wad(), pa)?;
            let ry = hd(pa * wad(), pb)?;
            let x = wmul(&k, &rx).sqrt() * p10(9);
            let y = wmul(&k, &ry).sqrt() * p10(9);
            hd((wmul(&x, pa) + wmul(&y, pb)) * wad(), &bi(*s))
        };
        let (Some(on), Some(of)) = (val(&pa, &pb), val(&oa, &ob)) else { return none };
        let Some((x, y, fz)) = self.bands(t, &on, &of) else { return none };
        let mut bad = qa.bad.or(qb.bad);
        if sa || sb {
            bad = bad.or(Some("stale feed"));
        }
        if !y {
            bad = bad.or(Some("sources disagree"));
        }
        let avg = (&on + &of) / BigInt::from(2);
        Quote {
            px: Some(if x { on.clone() } else { avg }),
            bad,
            fuzzy: fz || qa.fuzzy || qb.fuzzy,
            safe: Some(on),
            agg: Some(of),
            within: (x, y),
        }
    }
    /// nothing at all works: the native feed itself is unusable
    pub fn dead(&self) -> bool {
        self.spec.agg.paused || self.agg(WEGLD, self.spec.oracles[WEGLD as usize].stale).1
    }
}

// ------------------------------------------------------------------ P25
pub struct Composition;
impl Composition {
    fn check(w: &mut World, spec: &Spec, st: &mut Stats) -> R {
        let now = w.ch.now();
        let env = w.env.clone();
        let rf = Ref { env: &env, spec, now };
        if rf.dead() {
            if let Some(t) = w.pools.keys().next().cloned() {
                if w.px_egld(t).is_some() {
                    return bad("price without a native feed", format!("{} quoted while the EGLD feed is unusable", show(t)));
                }
            }
            return Ok(());
        }
        let toks: Vec<u8> = w.pools.keys().cloned().collect();
        let ctl = w.ctl.clone();
        let close = |a: &BigInt, b: &BigInt| near_rel(a, b, 1_000_000_000_000, 60);
        // values built on several roundings of small numbers carry more absolute error
        for t in toks {
            let q = rf.quote(t);
            if q.fuzzy {
                continue;
            }
            let got = w.px_egld(t);
            match (&q.px, &got) {
                (None, None) => continue,
                (None, Some(g)) => return bad("price out of nothing", format!("{} quoted at {}", show(t), g)),
                (Some(x), None) => {
                    // sources answering zero cannot be compared
                    if x.is_zero() || q.agg.as_ref().map(|a| a.is_zero()).unwrap_or(false) {
                        continue;
                    }
                    return bad("price refused", format!("{} should be worth {}", show(t), x));
                }
                (Some(x), Some(g)) => {
                    st.judge(
                        "price",
                        (t, q.within, q.bad, spec.oracles[t as usize].method, bits(x), spec.oracles[t as usize].first, spec.oracles[t as usize].last),
                    );
                    if !close(x, g) {
                        return bad("price", format!("{}: quoted {}, reference {} ({:?})", show(t), g, x, q));
                    }
                }
            }
            let o = w.ch.query(&ctl, "getAllMarketIndexes", vec![enc::s(tid(t))]);
            if !o.ok {
                return bad("market view refused", format!("{}: {}", show(t), o.msg));
            }
            let v = o.values.first().cloned().unwrap_or_default();
            let mut r = Rd::new(&v);
            let _ = r.str();
            let (_si, _bi, pe, pu, se, su, ae, au) =
                (r.dec().0, r.dec().0, r.dec().0, r.dec().0, r.dec().0, r.dec().0, r.dec().0, r.dec().0);
            let (wf, ws) = (r.bool(), r.bool());
            if r.bad {
                continue;
            }
            let px = q.px.clone().unwrap();
            let usd = spec.agg.rounds.get("EGLD").map(|r| bi(r.price)).unwrap_or_default();
            let u = |e: &BigInt| wmul(e, &usd);
            let want = [
                ("EGLD price", &pe, px.clone()),
                ("USD price", &pu, u(&px)),
                ("on-chain price", &se, q.safe.clone().unwrap_or(px.clone())),
                ("on-chain USD price", &su, u(&q.safe.clone().unwrap_or(px.clone()))),
                ("feed price", &ae, q.agg.clone().unwrap_or(px.clone())),
                ("feed USD price", &au, u(&q.agg.clone().unwrap_or(px.clone()))),
            ];
            let scale = bits(&usd) > 60;
            for (m, g, x) in want {
                // converting to dollars multiplies the rounding of the EGLD value
                let slack = if m.contains("USD") && scale { BigInt::from(60) * &usd / wad() + 60 } else { BigInt::from(60) };
                let tol = &x / BigInt::from(1_000_000_000_000u64) + slack;
                if !near(g, &x, &tol) {
                    return bad("market view price", format!("{} {}: shown {}, reference {}", show(t), m, g, x));
                }
            }
            if (wf, ws) != q.within {
                return bad("tolerance flags", format!("{}: shown {:?}, reference {:?}", show(t), (wf, ws), q.within));
            }
        }
        Ok(())
    }
}
impl Check for Composition {
    fn env(&mut self, w: &mut World, _s: &Snap, step: &Step, spec: &Spec, st: &mut Stats) -> R {
        if matches!(step, Step::Adv(_) | Step::AdvMs(_)) {
            return Ok(());
        }
        Self::check(w, spec, st)
    }
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if c.out.ok && matches!(c.op, Op::Tolerance { .. } | Op::Submit { .. } | Op::SubmitBatch { .. } | Op::CreateMarket { .. }) {
            return Self::check(w, c.spec, st);
        }
        Ok(())
    }
    fn end(&mut self, w: &mut World, _s: &Snap, spec: &Spec, st: &mut Stats) -> R {
        Self::check(w, spec, st)
    }
}

// ------------------------------------------------------------------ P24
pub fn strict(op: &Op, pre: &Snap) -> Option<bool> {
    let has_debt = |n: &u64| pre.accts.get(n).map(|a| !a.bor.is_empty()).unwrap_or(false);
    Some(match op {
        Op::Borrow { .. }
        | Op::Liquidate { .. }
        | Op::Clean { .. }
        | Op::UpdThreshold { .. }
        | Op::Multiply { .. }
        | Op::SwapDebt { .. }
        | Op::RepayColl { .. } => true,
        Op::Withdraw { nft, .. } | Op::SwapColl { nft, .. } => has_debt(nft),
        Op::Supply { .. } | Op::Repay { .. } | Op::Flash { .. } | Op::UpdIdx { .. } | Op::Claim { .. } => false,
        _ => return None,
    })
}
fn op_toks(op: &Op) -> Vec<u8> {
    match op {
        Op::Borrow { b, .. } => b.iter().map(|x| x.0).collect(),
        Op::Withdraw { w, .. } => w.iter().map(|x| x.0).collect(),
        Op::Liquidate { pays, .. } | Op::Repay { pays, .. } | Op::Supply { pays, .. } => pays.iter().map(|x| x.0).collect(),
        Op::UpdThreshold { tok, .. } => vec![*tok],
        Op::Multiply { collat, debt, .. } => vec![*collat, *debt],
        Op::SwapDebt { old, new, .. } => vec![*old, *new],
        Op::SwapColl { cur, new, .. } => vec![*cur, *new],
        Op::RepayColl { from, to, .. } => vec![*from, *to],
        _ => vec![],
    }
}
/// tokens a successful strict operation must have valued
fn involved(op: &Op, pre: &BTreeMap<u64, Acct>, post: &BTreeMap<u64, Acct>, n: Option<u64>) -> Vec<u8> {
    let mut v = op_toks(op);
    let mut add = |a: Option<&Acct>| {
        if let Some(a) = a {
            v.extend(a.dep.keys());
            v.extend(a.bor.keys());
        }
    };
    match op {
        Op::UpdThreshold { tok, risks, nonces } => {
            if *risks {
                for n in nonces {
                    if let Some(a) = pre.get(n) {
                        if a.dep.contains_key(tok) && !a.bor.is_empty() {
                            add(Some(a));
                        }
                    }
                }
            }
        }
        Op::Liquidate { nonce, .. } | Op::Clean { nonce } | Op::Borrow { nft: nonce, .. } => add(pre.get(nonce)),
        _ => {
            if let Some(n) = n {
                if let Some(a) = post.get(&n) {
                    if !a.bor.is_empty() {
                        add(Some(a));
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn price_msg(m: &str) -> bool {
    m.starts_with("The price is out the safety") || m.starts_with("Price feed is stale") || m.starts_with("Pair not active")
}

#[derive(Default)]
pub struct Safety {
    verdict: Option<Viol>,
    seen: Vec<(&'static str, (String, &'static str, bool, u8))>,
}
impl Check for Safety {
    fn before(&mut self, w: &mut World, s: &Snap, spec: &Spec, from: u8, op: &Op) {
        self.verdict = None;
        self.seen.clear();
        let Some(is_strict) = strict(op, s) else { return };
        let salt = crate::engine::h(&(format!("{:?}", op), s.now));
        if salt % 3 != 0 {
            return;
        }
        let n = subject(op, s);
        let f = w.fork();
        let o = w.exec(from, op, None);
        if !o.ok {
            w.unfork(f);
            return;
        }
        let mut post = BTreeMap::new();
        if let Some(n) = n {
            post.insert(n, w.acct(n));
        }
        let inv = involved(op, &s.accts, &post, n);
        w.unfork(f);
        // one fault, chosen by the operation itself
        let f = w.fork();
        let mut sp = spec.clone();
        let mut bases: Vec<u8> = vec![];
        for t in &inv {
            bases.extend(match *t {
                LXOXNO | LPB => vec![XOXNO],
                UTK => vec![UTK, USDC],
                LPA => vec![USDC],
                BTC | XOXNO | USDC | USDT => vec![*t],
                _ => vec![],
            });
        }
        let kind = (salt >> 8) % 8;
        let what: &'static str;
        let base = if bases.is_empty() { None } else { Some(bases[(salt >> 16) as usize % bases.len()]) };
        match (kind, base) {
            (0, _) => {
                what = "aggregator paused";
                w.exec(OWNER, &Op::AggPause, None);
                sp.agg.paused = true;
            }
            (1, _) => {
                what = "EGLD feed stale";
                let st = spec.oracles[WEGLD as usize].stale;
                stale(w, &mut sp, "EGLD", st + (salt >> 24) % 2 * 1000);
            }
            (2 | 3, Some(b)) => {
                what = "feed stale";
                let st = spec.oracles[b as usize].stale;
                stale(w, &mut sp, TOKS[b as usize].tick, st + (salt >> 24) % 2 * 1000);
            }
            (4 | 5, Some(b)) if DEXED.contains(&b) => {
                what = "DEX price pushed away";
                if let Some(Some((num, den))) = w.env.dex.get(&b).cloned() {
                    let r = Ref { env: &w.env.clone(), spec, now: s.now }.quote(b);
                    let far = spec.oracles[b as usize].last as u128 * 3 / 2 + 10_200;
                    let fair = match (&r.agg, &r.safe) {
                        (Some(a), Some(x)) if !x.is_zero() => {
                            let v = bi(num) * a / x;
                            num_traits::ToPrimitive::to_u128(&v).unwrap_or(num)
                        }
                        _ => num,
                    };
                    let q = if (salt >> 24) % 2 == 0 { mul_div(fair, far, 10_000) } else { mul_div(fair, 10_000, far) };
                    w.apply_dex(b, Some((q.max(1), den)));
                }
            }
            (6 | 7, Some(b)) if DEXED.contains(&b) => {
                what = "pair not active";
                w.apply_pair_state(b, if (salt >> 24) % 2 == 0 { 0 } else { 2 });
            }
            _ => {
                w.unfork(f);
                return;
            }
        }
        let env = w.env.clone();
        let rf = Ref { env: &env, spec: &sp, now: s.now };
        let dead = rf.dead();
        let qs: Vec<(u8, Quote)> = inv.iter().filter(|t| **t < JUNK).map(|t| (*t, rf.quote(*t))).collect();
        let fuzzy = qs.iter().any(|q| q.1.fuzzy);
        let unsafe_ = qs.iter().find(|q| q.1.bad.is_some() || q.1.px.is_none());
        let o = w.exec(from, op, None);
        w.unfork(f);
        let name = crate::engine::op_name(op);
        if dead {
            self.seen.push(("dead feed", (name.clone(), what, is_strict, 0)));
            if o.ok {
                self.verdict = Some(Viol { kind: "operation without prices".into(), msg: format!("{} succeeded with {}", name, what) });
            }
            return;
        }
        if fuzzy {
            return;
        }
        if is_strict {
            if let Some((t, q)) = unsafe_ {
                self.seen.push(("unsafe price refused", (name.clone(), what, is_strict, *t)));
                if o.ok {
                    self.verdict = Some(Viol {
                        kind: "unsafe price used".into(),
                        msg: format!("{} succeeded although {} is unsafe ({:?}) after: {}", name, show(*t), q.bad, what),
                    });
                }
            }
        } else if qs.iter().all(|q| q.1.px.is_some()) {
            self.seen.push(("risk-reducing operation kept", (name.clone(), what, is_strict, base.unwrap_or(0))));
            if !o.ok && price_msg(&o.msg) {
                self.verdict = Some(Viol {
                    kind: "risk-reducing operation blocked".into(),
                    msg: format!("{} refused ({}) after: {}", name, o.msg, what),
                });
            }
        }
    }
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        for (a, k) in self.seen.drain(..) {
            st.judge(a, k);
        }
        if let Some(v) = self.verdict.take() {
            return Err(v);
        }
        let Some(is_strict) = strict(c.op, c.pre) else { return Ok(()) };
        let env = w.env.clone();
        // the oracle configuration cannot change inside these operations
        let rf = Ref { env: &env, spec: c.spec0, now: c.post.now };
        let n = subject(c.op, c.pre);
        if c.out.ok {
            if rf.dead() {
                return bad("operation without prices", format!("{} succeeded with no usable EGLD feed", c.name()));
            }
            if !is_strict {
                return Ok(());
            }
            for t in involved(c.op, &c.pre.accts, &c.post.accts, n) {
                if t >= JUNK {
                    continue;
                }
                let q = rf.quote(t);
                st.judge("strict price", (c.name(), t, q.within, c.spec0.oracles[t as usize].method));
                if let (Some(b), false) = (q.bad, q.fuzzy) {
                    return bad("unsafe price used", format!("{} succeeded although {} is unsafe: {}", c.name(), show(t), b));
                }
            }
        } else if price_msg(&c.out.msg) {
            if rf.dead() {
                return Ok(());
            }
            if !is_strict {
                return bad("risk-reducing operation blocked", format!("{}: {}", c.name(), c.out.msg));
            }
            let mut v = op_toks(c.op);
            let accts: Vec<u64> = match c.op {
                Op::UpdThreshold { nonces, .. } => nonces.clone(),
                _ => n.into_iter().collect(),
            };
            for a in accts.iter().filter_map(|n| c.pre.accts.get(n)) {
                v.extend(a.dep.keys());
                v.extend(a.bor.keys());
            }
            if let Op::Multiply { pays, .. } | Op::SwapDebt { pays, .. } | Op::SwapColl { pays, .. } = c.op {
                v.extend(pays.iter().map(|p| p.0));
            }
            let why = v.iter().filter(|t| **t < JUNK).any(|t| {
                let q = rf.quote(*t);
                q.bad.is_some() || q.fuzzy || q.px.is_none()
            });
            st.judge("price refusal has a reason", (c.name(), c.out.msg.len(), v.len()));
            if !why {
                return bad("safe price refused", format!("{}: {} although every price involved is sound", c.name(), c.out.msg));
            }
        }
        Ok(())
    }
}
/// age a feed on the (forked) chain and in the reference
fn stale(w: &mut World, sp: &mut Spec, tick: &str, age: u64) {
    let now = w.ch.now();
    let Some(r) = sp.agg.rounds.get_mut(tick) else { return };
    r.ts = now.saturating_sub(age);
    let mut k = b"rounds".to_vec();
    k.extend(enc::nested(tick.as_bytes()));
    k.extend(enc::nested(b"USD"));
    let mut v = enc::nested(&enc::big(&bu(r.price)));
    v.extend_from_slice(&r.ts.to_be_bytes());
    v.extend_from_slice(&r.id.to_be_bytes());
    let a = w.agg.clone();
    let had = w.ch.sget(&a, &k).len();
    assert!(had > 0, "aggregator round key");
    w.ch.sset(&a, &k, v);
}
