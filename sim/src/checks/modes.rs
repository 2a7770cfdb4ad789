//! Market and account modes: caps, position limits, isolation, siloed borrowing, e-mode, account NFTs.
use super::*;
use crate::enc;
use num_traits::{Signed, ToPrimitive};
use std::collections::BTreeSet;

fn grown(c: &Ctx, n: u64, borrow: bool) -> Vec<u8> {
    let Some(a) = c.post.accts.get(&n) else { return vec![] };
    let m = if borrow { &a.bor } else { &a.dep };
    m.iter().filter(|(t, p)| p.scaled > scaled(c.pre, n, **t, borrow)).map(|(t, _)| *t).collect()
}
fn opens_deposit(op: &Op) -> bool {
    matches!(op, Op::Supply { .. } | Op::Multiply { .. } | Op::SwapColl { .. })
}
fn opens_debt(op: &Op) -> bool {
    matches!(op, Op::Borrow { .. } | Op::Multiply { .. } | Op::SwapDebt { .. })
}
fn total(c: &Ctx, t: u8, borrow: bool) -> BigInt {
    let p = &c.post.pools[&t];
    if borrow {
        down(&amt(&p.borrowed, &p.bi), t)
    } else {
        down(&amt(&p.supplied, &p.si), t)
    }
}

/// rounding room on the total deposits (or debts) of a market, raw units
fn total_slack(c: &Ctx, t: u8, borrow: bool) -> BigInt {
    let acc = c.acc0_of(t);
    let p0 = &c.pre.pools[&t];
    let owed = amt(&acc.borrowed, &acc.tol_bi);
    let two = BigInt::from(2);
    let r = if borrow {
        owed + &acc.bi * &two / ray()
    } else {
        let m = std::cmp::max(&acc.si, &c.post.pools[&t].si).clone();
        amt(&acc.supplied, &tol_si(p0, &acc.si)) + owed + m * &two / ray()
    };
    down(&r, t) + 2
}

// ------------------------------------------------------------------ P18
#[derive(Default)]
pub struct Caps {
    verdict: Option<Viol>,
    seen: Vec<(String, u8, bool)>,
}
impl Caps {
    /// The same operation with the cap set to exactly what it leads to, and one unit below that.
    fn at_cap(&mut self, w: &mut World, spec: &Spec, from: u8, op: &Op, s: &Snap) {
        let (t, debt, n) = match op {
            Op::Supply { pays, .. } if !pays.is_empty() => (pays[0].0, false, pays.len()),
            Op::Borrow { b, .. } if !b.is_empty() => (b[0].0, true, b.len()),
            Op::Multiply { debt, collat, .. } if debt != collat => {
                if s.now % 2 == 0 {
                    (*debt, true, 2)
                } else {
                    (*collat, false, 2)
                }
            }
            Op::SwapDebt { new, .. } => (*new, true, 2),
            Op::SwapColl { new, .. } => (*new, false, 2),
            _ => return,
        };
        let Some(ac) = spec.acs.get(&t) else { return };
        // one index for all that follows
        if !w.pools.contains_key(&t) || !w.exec(OWNER, &Op::UpdIdx { toks: vec![t] }, None).ok {
            return;
        }
        let p0 = w.pool_snap(t);
        let f = w.fork();
        let done = w.exec(from, op, None).ok;
        let p1 = w.pool_snap(t);
        w.unfork(f);
        let (a, b) = if debt { (amt(&p0.borrowed, &p0.bi), amt(&p1.borrowed, &p1.bi)) } else { (amt(&p0.supplied, &p0.si), amt(&p1.supplied, &p1.si)) };
        if !done || b <= a {
            return;
        }
        // a strategy that hands back part of its loan meets the cap before it does
        if let Op::Multiply { amount, .. } | Op::SwapDebt { amount, .. } = op {
            if debt && &b - &a + unit(t) * 2 < up(&bi(*amount), t) {
                return;
            }
        }
        let sharp = n == 1 && p1.si == ray() && p1.bi == ray() && (&b % unit(t)).is_zero();
        let room = BigInt::from(if sharp { 0 } else { n + 1 });
        let lo = &b / unit(t) - &room;
        let hi = &b / unit(t) + &room;
        for (cap, fine) in [(hi, true), (lo - 1, false)] {
            let Some(cap) = cap.to_u128() else { continue };
            if cap == 0 {
                continue;
            }
            let mut ac = ac.clone();
            if debt {
                ac.borrow_cap = cap;
            } else {
                ac.supply_cap = cap;
            }
            let f = w.fork();
            let set = w.exec(OWNER, &Op::EditAsset { tok: t, ac }, None).ok;
            let o = w.exec(from, op, None);
            w.unfork(f);
            if !set {
                continue;
            }
            self.seen.push((crate::engine::op_name(op), t, fine));
            if o.ok != fine {
                self.verdict = Some(Viol {
                    kind: if fine { "refused at the cap".into() } else { "accepted above the cap".into() },
                    msg: format!("{:?} by {} with a {} cap of {}: {}", op, from, if debt { "borrow" } else { "supply" }, cap, if o.ok { "accepted" } else { &o.msg }),
                });
            }
        }
    }
}
impl Check for Caps {
    fn before(&mut self, w: &mut World, s: &Snap, spec: &Spec, from: u8, op: &Op) {
        self.verdict = None;
        self.seen.clear();
        if crate::engine::h(&(format!("{:?}", op), s.now)) % 4 != 0 {
            return;
        }
        let f = w.fork();
        self.at_cap(w, spec, from, op, s);
        w.unfork(f);
    }
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        for k in self.seen.drain(..) {
            st.judge("cap met exactly", k);
        }
        if let Some(v) = self.verdict.take() {
            return Err(v);
        }
        let Some(n) = subject(c.op, c.pre) else { return Ok(()) };
        if c.out.ok {
            if opens_deposit(c.op) {
                for t in grown(c, n, false) {
                    let cap = c.spec0.acs[&t].supply_cap;
                    if cap == 0 {
                        continue;
                    }
                    let acc = c.acc0_of(t);
                    let p = &c.post.pools[&t];
                    // treasury shares minted by this very accrual may come on top
                    let shares = down(&amt(&(&acc.supplied - &c.pre.pools[&t].supplied), &p.si), t);
                    let tot = total(c, t, false);
                    st.judge("supply under cap", (c.name(), t, (ratio(&tot, &bi(cap)) * 20.0) as i64));
                    if tot > bi(cap) + shares + total_slack(c, t, false) {
                        return bad("supply cap", format!("{}: {} total deposits {} exceed the cap {}", c.name(), show(t), tot, cap));
                    }
                }
            }
            if opens_debt(c.op) {
                for t in grown(c, n, true) {
                    let cap = c.spec0.acs[&t].borrow_cap;
                    if cap == 0 {
                        continue;
                    }
                    let tot = total(c, t, true);
                    st.judge("borrow under cap", (c.name(), t, (ratio(&tot, &bi(cap)) * 20.0) as i64));
                    if tot > bi(cap) + total_slack(c, t, true) {
                        return bad("borrow cap", format!("{}: {} total debts {} exceed the cap {}", c.name(), show(t), tot, cap));
                    }
                }
            }
            return Ok(());
        }
        match c.op {
            Op::Supply { pays, .. } if c.out.msg == "Supply cap reached." => {
                let mut why = false;
                for (t, a) in by_tok(pays) {
                    let Some(ac) = c.spec0.acs.get(&t) else { continue };
                    let acc = c.acc0_of(t);
                    let tot = down(&amt(&acc.supplied, &acc.si), t) + a;
                    if ac.supply_cap != 0 && tot > bi(ac.supply_cap) - total_slack(c, t, false) {
                        why = true;
                    }
                }
                st.judge("supply cap refusal", (c.name(), pays.len(), pays.first().map(|x| x.0)));
                if !why {
                    return bad("supply cap refusal", format!("{:?} refused although every cap leaves room", pays));
                }
            }
            Op::Borrow { b, .. } if c.out.msg == "Borrow cap reached." => {
                let mut why = false;
                for (t, a) in by_tok(b) {
                    let Some(ac) = c.spec0.acs.get(&t) else { continue };
                    let acc = c.acc0_of(t);
                    let tot = down(&amt(&acc.borrowed, &acc.bi), t) + a;
                    if ac.borrow_cap != 0 && tot > bi(ac.borrow_cap) - total_slack(c, t, true) {
                        why = true;
                    }
                }
                st.judge("borrow cap refusal", (c.name(), b.len(), b.first().map(|x| x.0)));
                if !why {
                    return bad("borrow cap refusal", format!("{:?} refused although every cap leaves room", b));
                }
            }
            _ => {}
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P19
pub struct Limits;
impl Check for Limits {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        let Some(n) = subject(c.op, c.pre) else { return Ok(()) };
        let cnt = |s: &Snap, b: bool| -> usize {
            s.accts.get(&n).map(|a| if b { a.bor.len() } else { a.dep.len() }).unwrap_or(0)
        };
        if c.out.ok {
            for b in [false, true] {
                if !(if b { opens_debt(c.op) } else { opens_deposit(c.op) }) {
                    continue;
                }
                let new = grown(c, n, b).into_iter().any(|t| scaled(c.pre, n, t, b).is_zero());
                if !new {
                    continue;
                }
                let lim = if b { c.spec0.borrow_limit } else { c.spec0.supply_limit } as usize;
                st.judge("new position within limit", (c.name(), b, cnt(c.pre, b), cnt(c.post, b), lim));
                if cnt(c.post, b) > lim {
                    return bad(
                        "position limit",
                        format!(
                            "{}: account {} holds {} {} positions, limit {}",
                            c.name(),
                            n,
                            cnt(c.post, b),
                            if b { "borrow" } else { "supply" },
                            lim
                        ),
                    );
                }
            }
        } else if c.out.msg.starts_with("Position limit exceeded") {
            let (list, b) = match c.op {
                Op::Supply { pays, .. } => (pays, false),
                Op::Borrow { b, .. } => (b, true),
                _ => return Ok(()),
            };
            let lim = if b { c.spec0.borrow_limit } else { c.spec0.supply_limit } as usize;
            let newp = list.iter().filter(|(t, _)| scaled(c.pre, n, *t, b).is_zero()).count();
            st.judge("limit refusal", (c.name(), cnt(c.pre, b), newp, lim));
            if cnt(c.pre, b) + newp <= lim {
                return bad(
                    "position limit refusal",
                    format!("{}: account {} holds {} and asks for {} more, limit {}", c.name(), n, cnt(c.pre, b), newp, lim),
                );
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P20
#[derive(Default)]
pub struct Isolated {
    verdict: Option<Viol>,
    seen: Vec<(u8, usize, bool)>,
}
impl Isolated {
    fn at_ceiling(&mut self, w: &mut World, spec: &Spec, from: u8, op: &Op, s: &Snap) {
        let Op::Borrow { nft, b } = op else { return };
        let Some(it) = s.accts.get(nft).and_then(|a| a.iso_tok) else { return };
        let Some(ac) = spec.acs.get(&it) else { return };
        let f = w.fork();
        let done = w.exec(from, op, None).ok;
        let v1 = w.iso_debt(it);
        w.unfork(f);
        if !done || v1 <= s.iso_debt.get(&it).cloned().unwrap_or_default() {
            return;
        }
        for (ceil, fine) in [(v1.clone(), true), (v1 - 1, false)] {
            let Some(ceiling) = ceil.to_u128() else { continue };
            let f = w.fork();
            let set = w.exec(OWNER, &Op::EditAsset { tok: it, ac: AssetCfg { ceiling, ..ac.clone() } }, None).ok;
            let o = w.exec(from, op, None);
            w.unfork(f);
            if !set {
                continue;
            }
            self.seen.push((it, b.len(), fine));
            if o.ok != fine {
                self.verdict = Some(Viol {
                    kind: if fine { "refused at the ceiling".into() } else { "accepted above the ceiling".into() },
                    msg: format!("{:?} by {} with a ceiling of {}: {}", op, from, ceiling, if o.ok { "accepted" } else { &o.msg }),
                });
            }
        }
    }
    fn usd(w: &mut World, c: &Ctx, t: u8, raw: &BigInt) -> Option<BigInt> {
        let p = w.px_egld(t)?;
        let e = bi(c.spec.agg.rounds.get("EGLD")?.price);
        Some(raw * p * e / wad() / p10(tdec(t)))
    }
    fn usd_ray(w: &mut World, c: &Ctx, t: u8, r: &BigInt) -> Option<BigInt> {
        let p = w.px_egld(t)?;
        let e = bi(c.spec.agg.rounds.get("EGLD")?.price);
        Some(r * p * e / wad() / ray())
    }
}
impl Check for Isolated {
    fn before(&mut self, w: &mut World, s: &Snap, spec: &Spec, from: u8, op: &Op) {
        self.verdict = None;
        self.seen.clear();
        self.at_ceiling(w, spec, from, op, s);
    }
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        for k in self.seen.drain(..) {
            st.judge("ceiling met exactly", k);
        }
        if let Some(v) = self.verdict.take() {
            return Err(v);
        }
        let n = subject(c.op, c.pre);
        if !c.out.ok {
            if let (Op::Borrow { b, .. }, Some(n)) = (c.op, n) {
                if c.out.msg.starts_with("Debt ceiling reached") {
                    let Some(a) = c.pre.accts.get(&n) else { return Ok(()) };
                    let Some(it) = a.iso_tok else {
                        return bad("ceiling refusal", format!("account {} is not isolated", n));
                    };
                    let mut sum = c.pre.iso_debt.get(&it).cloned().unwrap_or_default();
                    for (t, x) in b {
                        let Some(v) = Self::usd(w, c, *t, &bi(*x)) else { return Ok(()) };
                        sum += v;
                    }
                    let ceil = bi(c.spec0.acs[&it].ceiling);
                    st.judge("ceiling refusal", (it, b.len(), bits(&sum)));
                    if &sum + &sum / BigInt::from(1_000_000_000_000u64) + BigInt::from(10_000) <= ceil {
                        return bad("ceiling refusal", format!("isolated {} debt would be {} of {}", show(it), sum, ceil));
                    }
                }
            }
            return Ok(());
        }
        // composition of accounts
        for (m, a) in &c.post.accts {
            if a.iso {
                let Some(it) = a.iso_tok else { return bad("isolated account", format!("account {} names no asset", m)) };
                if let Some(t) = a.dep.keys().find(|t| **t != it) {
                    return bad("isolated collateral mixed", format!("{}: isolated ({}) account {} holds {}", c.name(), show(it), m, show(*t)));
                }
            }
            if let Some(b) = c.pre.accts.get(m) {
                if (a.iso, a.iso_tok) != (b.iso, b.iso_tok) {
                    return bad("isolation changed", format!("{}: account {}", c.name(), m));
                }
            }
        }
        if let Some(n) = n {
            if let Some(a) = c.post.accts.get(&n) {
                let up_d = grown(c, n, false);
                for t in &up_d {
                    let iso_asset = c.spec0.acs[t].isolated;
                    st.judge("deposit isolation", (c.name(), *t, iso_asset, a.iso, a.dep.len()));
                    if iso_asset && !(a.iso && a.iso_tok == Some(*t)) {
                        return bad("isolated asset in ordinary account", format!("{}: account {} deposit of {}", c.name(), n, show(*t)));
                    }
                    if !c.pre.accts.contains_key(&n) && a.iso != iso_asset && up_d.len() == 1 {
                        return bad("new account isolation", format!("{}: account {} opened with {}", c.name(), n, show(*t)));
                    }
                }
                if a.iso {
                    for t in grown(c, n, true) {
                        st.judge("isolated borrow", (c.name(), t, c.spec0.acs[&t].iso_borrow));
                        if !c.spec0.acs[&t].iso_borrow {
                            return bad("isolated borrow", format!("{}: isolated account {} borrowed {}", c.name(), n, show(t)));
                        }
                    }
                }
            }
        }
        // the debt tracker
        let acct = n.and_then(|n| c.pre.accts.get(&n).or_else(|| c.post.accts.get(&n)));
        let it = acct.and_then(|a| if a.iso { a.iso_tok } else { None });
        for (t, v1) in &c.post.iso_debt {
            let v0 = c.pre.iso_debt.get(t).cloned().unwrap_or_default();
            if Some(*t) == it {
                continue;
            }
            if *v1 != v0 {
                return bad("isolated debt tracker", format!("{}: tracker of {} moved {} → {}", c.name(), show(*t), v0, v1));
            }
        }
        let (Some(it), Some(n)) = (it, n) else { return Ok(()) };
        let v0 = c.pre.iso_debt.get(&it).cloned().unwrap_or_default();
        let v1 = c.post.iso_debt.get(&it).cloned().unwrap_or_default();
        let taken: Vec<(u8, u128)> = match c.op {
            Op::Borrow { b, .. } => b.clone(),
            Op::Multiply { debt, amount, .. } => vec![(*debt, *amount)],
            Op::SwapDebt { new, amount, .. } => vec![(*new, *amount)],
            _ => vec![],
        };
        let mut inc = BigInt::zero();
        let mut tol = BigInt::from(1_000_000u64);
        for (t, x) in &taken {
            let Some(v) = Self::usd(w, c, *t, &bi(*x)) else { return Ok(()) };
            inc += v;
        }
        if inc.is_positive() {
            let ceil = bi(c.spec0.acs[&it].ceiling);
            let tot = &v0 + &inc;
            let lim = &ceil + &ceil / BigInt::from(1_000_000_000_000u64) + BigInt::from(1_000_000u64);
            st.judge("debt ceiling", (c.name(), it, (ratio(&tot, &ceil) * 20.0) as i64));
            if tot > lim {
                return bad("debt ceiling", format!("{}: isolated {} debt {} exceeds the ceiling {}", c.name(), show(it), tot, ceil));
            }
        }
        let mut dec = BigInt::zero();
        let repays = matches!(
            c.op,
            Op::Repay { .. } | Op::Liquidate { .. } | Op::Clean { .. } | Op::SwapDebt { .. } | Op::RepayColl { .. }
        );
        if repays {
            let pre = c.pre.accts.get(&n).map(|a| a.bor.clone()).unwrap_or_default();
            for (t, p) in &pre {
                let acc = c.acc0_of(*t);
                let o = amt(&p.scaled, &acc.bi);
                let now = amt(&scaled(c.post, n, *t, true), &c.post.pools[t].bi);
                if taken.iter().any(|x| x.0 == *t) {
                    continue;
                }
                // a market the operation did not reach keeps its stored indexes
                if scaled(c.post, n, *t, true) == p.scaled {
                    // a liquidation may settle less than one unit of a debt
                    if matches!(c.op, Op::Liquidate { .. }) {
                        let Some(u) = Self::usd_ray(w, c, *t, &unit(*t)) else { return Ok(()) };
                        tol += u;
                    }
                    continue;
                }
                let d = &o - &now;
                let Some(v) = Self::usd_ray(w, c, *t, &d) else { return Ok(()) };
                let Some(u) = Self::usd_ray(w, c, *t, &(unit(*t) * 3 + amt(&p.scaled, &acc.tol_bi) + &o / p10(15)))
                else {
                    return Ok(());
                };
                dec += v;
                tol += u;
            }
            // what the operation borrowed and paid back itself
            for (t, x) in &taken {
                let acc = c.acc0_of(*t);
                let o = amt(&scaled(c.pre, n, *t, true), &acc.bi) + up(&bi(*x), *t);
                let now = amt(&scaled(c.post, n, *t, true), &c.post.pools[t].bi);
                let d = &o - &now;
                let room = unit(*t) * 3 + amt(&scaled(c.pre, n, *t, true), &acc.tol_bi) + &o / p10(15) + &acc.bi * 4u8 / ray();
                let (Some(v), Some(u)) = (Self::usd_ray(w, c, *t, &d), Self::usd_ray(w, c, *t, &room)) else { return Ok(()) };
                if d.abs() > room {
                    dec += v;
                }
                tol += u;
            }
        }
        let x = &v0 + &inc - &dec;
        let x = if x.is_negative() { BigInt::zero() } else { x };
        tol += (&v0 + &inc) / p10(13);
        let one = wad();
        st.judge("isolated debt tracker", (c.name(), it, bits(&inc) / 2, bits(&dec) / 2, v1.is_zero()));
        if near(&v1, &x, &tol) {
            return Ok(());
        }
        if repays && v1.is_zero() && x < &one + &tol {
            return Ok(());
        }
        bad(
            "isolated debt tracker",
            format!("{}: {} tracker {} → {}, expected {} (+{} −{}, tolerance {})", c.name(), show(it), v0, v1, x, inc, dec, tol),
        )
    }
}

// ------------------------------------------------------------------ P21
pub struct Siloed;
impl Check for Siloed {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        let Some(n) = subject(c.op, c.pre) else { return Ok(()) };
        let sil = |t: &u8| c.spec0.acs.get(t).map(|a| a.siloed).unwrap_or(false);
        let pre: BTreeSet<u8> = c.pre.accts.get(&n).map(|a| a.bor.keys().cloned().collect()).unwrap_or_default();
        if c.out.ok {
            if !opens_debt(c.op) {
                return Ok(());
            }
            let g = grown(c, n, true);
            let post: BTreeSet<u8> = c.post.accts.get(&n).map(|a| a.bor.keys().cloned().collect()).unwrap_or_default();
            if g.is_empty() {
                return Ok(());
            }
            // everything owed at any moment of the operation
            let all: BTreeSet<u8> = pre.union(&post).cloned().collect();
            st.judge("siloed debt", (c.name(), all.iter().filter(|t| sil(t)).count(), all.len(), pre.len(), g.len()));
            if let Op::SwapDebt { old, new, .. } = c.op {
                if sil(old) || sil(new) {
                    return bad("siloed debt swapped", format!("account {}: {} → {}", n, show(*old), show(*new)));
                }
            }
            if pre.len() <= 1 {
                if all.len() > 1 && all.iter().any(sil) {
                    return bad(
                        "siloed debt mixed",
                        format!("{}: account {} owes {:?}", c.name(), n, all.iter().map(|t| show(*t)).collect::<Vec<_>>()),
                    );
                }
            } else if let Some(t) = g.iter().find(|t| sil(t)) {
                return bad("siloed debt mixed", format!("{}: account {} with {} debts took {}", c.name(), n, pre.len(), show(*t)));
            }
        } else if c.out.msg.contains("siloed mode") {
            let Op::Borrow { b, .. } = c.op else { return Ok(()) };
            let all: BTreeSet<u8> = pre.iter().cloned().chain(b.iter().map(|x| x.0)).collect();
            st.judge("siloed refusal", (all.len(), pre.len(), all.iter().filter(|t| sil(t)).count()));
            if !(all.len() > 1 && all.iter().any(sil)) {
                return bad("siloed refusal", format!("account {} owing {:?} may borrow {:?}", n, pre, b));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P22
pub struct EMode;
impl EMode {
    fn allowed(spec: &Spec, e: u8, t: u8, borrow: bool) -> Result<(), &'static str> {
        let ac = &spec.acs[&t];
        let flag = if e == 0 {
            if borrow {
                ac.borrow
            } else {
                ac.collat
            }
        } else {
            let Some(em) = spec.emodes.get(&e) else { return Err("no such category") };
            if em.deprecated {
                return Err("category deprecated");
            }
            let Some((cl, bo)) = em.assets.get(&t) else { return Err("asset outside the category") };
            if ac.isolated {
                return Err("isolated asset in e-mode");
            }
            if borrow {
                *bo
            } else {
                *cl
            }
        };
        if flag {
            Ok(())
        } else {
            Err("not enabled")
        }
    }
}
impl Check for EMode {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if let (Op::UpdThreshold { tok, risks, nonces }, true) = (c.op, c.out.ok) {
            // an explicit refresh gives a member the terms of its category, and only members
            for n in nonces {
                let Some(a) = c.post.accts.get(n) else { continue };
                let Some(q) = a.dep.get(tok) else { continue };
                let ac = &c.spec0.acs[tok];
                let (ltv, lt, bonus) = match c.spec0.emodes.get(&a.emode) {
                    Some(m) if a.emode > 0 => {
                        if m.deprecated || !m.assets.contains_key(tok) {
                            return bad("terms of a category that does not apply", format!("account {} category {} {}", n, a.emode, show(*tok)));
                        }
                        (m.ltv, m.lt, m.bonus)
                    }
                    _ => (ac.ltv, ac.lt, ac.bonus),
                };
                st.judge("terms refreshed", (*tok, a.emode, *risks, a.bor.len()));
                let ok = if *risks { q.lt == BigInt::from(lt) } else { q.ltv == BigInt::from(ltv) && q.bonus == BigInt::from(bonus) };
                if !ok {
                    return bad(
                        "refreshed terms",
                        format!("account {} category {} {} (risky {}): ltv {} lt {} bonus {}, configured {} {} {}", n, a.emode, show(*tok), risks, q.ltv, q.lt, q.bonus, ltv, lt, bonus),
                    );
                }
            }
            return Ok(());
        }
        let Some(n) = subject(c.op, c.pre) else { return Ok(()) };
        if c.out.ok {
            if !opens_deposit(c.op) && !opens_debt(c.op) {
                return Ok(());
            }
            let Some(a) = c.post.accts.get(&n) else { return Ok(()) };
            if let Some(b) = c.pre.accts.get(&n) {
                if b.emode != a.emode || b.mode != a.mode {
                    return bad("e-mode changed", format!("{}: account {} {} → {}", c.name(), n, b.emode, a.emode));
                }
            } else {
                let want = match c.op {
                    Op::Supply { emode, .. } => emode.unwrap_or(0),
                    Op::Multiply { emode, .. } => *emode,
                    _ => 0,
                };
                let want = if a.iso { 0 } else { want };
                st.judge("new account category", (c.name(), a.iso, want));
                if a.emode != want {
                    return bad("new account category", format!("{}: account {} asked for {} got {}", c.name(), n, want, a.emode));
                }
            }
            let e = a.emode;
            for t in grown(c, n, false) {
                st.judge("deposit allowed", (c.name(), t, e, a.iso));
                if let Err(m) = Self::allowed(c.spec0, e, t, false) {
                    return bad("deposit not allowed", format!("{}: account {} category {} deposit of {}: {}", c.name(), n, e, show(t), m));
                }
                let p = &a.dep[&t];
                let ac = &c.spec0.acs[&t];
                let (ltv, lt, bonus) = match c.spec0.emodes.get(&e) {
                    Some(m) if e > 0 => (m.ltv, m.lt, m.bonus),
                    _ => (ac.ltv, ac.lt, ac.bonus),
                };
                let old = c.pre.accts.get(&n).and_then(|a| a.dep.get(&t));
                let want_lt = old.map(|o| o.lt.clone()).unwrap_or_else(|| BigInt::from(lt));
                // a swap may empty and reopen the position it is swapping into
                if p.ltv != BigInt::from(ltv) || p.bonus != BigInt::from(bonus) || p.fee != BigInt::from(ac.fee) {
                    return bad(
                        "deposit terms",
                        format!(
                            "{}: account {} category {} {}: ltv {} bonus {} fee {}, configured {} {} {}",
                            c.name(),
                            n,
                            e,
                            show(t),
                            p.ltv,
                            p.bonus,
                            p.fee,
                            ltv,
                            bonus,
                            ac.fee
                        ),
                    );
                }
                if p.lt != want_lt {
                    return bad(
                        "deposit terms",
                        format!("{}: account {} category {} {}: threshold {}, expected {}", c.name(), n, e, show(t), p.lt, want_lt),
                    );
                }
            }
            for t in grown(c, n, true) {
                st.judge("borrow allowed", (c.name(), t, e, a.iso));
                if let Err(m) = Self::allowed(c.spec0, e, t, true) {
                    return bad("borrow not allowed", format!("{}: account {} category {} borrow of {}: {}", c.name(), n, e, show(t), m));
                }
            }
            return Ok(());
        }
        let (list, borrow) = match c.op {
            Op::Supply { pays, .. } => (pays, false),
            Op::Borrow { b, .. } => (b, true),
            _ => return Ok(()),
        };
        let toks: Vec<u8> = list.iter().map(|x| x.0).filter(|t| c.spec0.acs.contains_key(t)).collect();
        let e = match c.pre.accts.get(&n) {
            Some(a) => a.emode,
            None => match c.op {
                Op::Supply { emode, .. } => {
                    if toks.first().map(|t| c.spec0.acs[t].isolated).unwrap_or(false) {
                        0
                    } else {
                        emode.unwrap_or(0)
                    }
                }
                _ => return Ok(()),
            },
        };
        let m = c.out.msg.as_str();
        let any = |f: &dyn Fn(u8) -> bool| toks.iter().any(|t| f(*t));
        let why = if m == "Asset not supported as collateral." || m == "Asset not borrowable." {
            any(&|t| Self::allowed(c.spec0, e, t, borrow).is_err())
        } else if m.starts_with("E-mode category not found") {
            e != 0 && (!c.spec0.emodes.contains_key(&e) || any(&|t| !c.spec0.emodes[&e].assets.contains_key(&t)))
        } else if m.starts_with("E-mode category deprecated") {
            c.spec0.emodes.get(&e).map(|x| x.deprecated).unwrap_or(false)
        } else if m.starts_with("Cannot use E-Mode with isolated") {
            e != 0 && any(&|t| c.spec0.acs[&t].isolated)
        } else {
            return Ok(());
        };
        st.judge("refusal has a reason", (c.name(), e, m.len(), toks.first().cloned()));
        if !why {
            return bad("refused for no reason", format!("{} {:?} in category {}: {}", c.name(), toks, e, m));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P23
#[derive(Default)]
pub struct Nft {
    /// accounts written off; their NFTs stay with the holder and mean nothing
    gone: BTreeSet<u64>,
}
fn nft_of(op: &Op) -> Option<u64> {
    match op {
        Op::Supply { nft, .. } | Op::Multiply { nft, .. } => *nft,
        Op::Withdraw { nft, .. }
        | Op::Borrow { nft, .. }
        | Op::SwapDebt { nft, .. }
        | Op::SwapColl { nft, .. }
        | Op::RepayColl { nft, .. }
        | Op::MoveNft { nft, .. } => Some(*nft),
        Op::Raw { nft, .. } => *nft,
        _ => None,
    }
}
impl Check for Nft {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        if let Some(n) = nft_of(c.op) {
            if c.pre.nfts.get(&n) != Some(&Some(c.from)) {
                return bad("foreign account used", format!("{} by user {} with NFT {} held by {:?}", c.name(), c.from, n, c.pre.nfts.get(&n)));
            }
            if !matches!(c.op, Op::MoveNft { .. } | Op::Raw { .. }) && !c.pre.accts.contains_key(&n) {
                return bad("dead account used", format!("{} with NFT {}", c.name(), n));
            }
        }
        if let Op::Supply { nft: None, to: Some(n), .. } = c.op {
            st.judge("deposit for somebody else", (*n == 0, c.pre.accts.contains_key(n)));
            if *n != 0 && !c.pre.accts.contains_key(n) {
                return bad("dead account used", format!("deposit into account {} which does not exist", n));
            }
        }
        let s0: BTreeSet<u64> = c.pre.accts.keys().cloned().collect();
        let s1: BTreeSet<u64> = c.post.accts.keys().cloned().collect();
        let born: Vec<u64> = s1.difference(&s0).cloned().collect();
        let died: Vec<u64> = s0.difference(&s1).cloned().collect();
        let opens = match c.op {
            Op::Supply { nft, to, .. } => nft.is_none() && to.unwrap_or(0) == 0,
            Op::Multiply { nft, .. } => nft.is_none(),
            _ => false,
        };
        st.judge("account lifecycle", (c.name(), born.len(), died.len(), c.post.accts.len().min(12)));
        if opens {
            let n = c.pre.last_nonce + 1;
            if born != vec![n] || c.post.last_nonce != n {
                return bad("account not opened", format!("{}: opened {:?}, next nonce was {}", c.name(), born, n));
            }
            if c.post.nfts.get(&n) != Some(&Some(c.from)) {
                return bad("new account holder", format!("{}: account {} went to {:?}", c.name(), n, c.post.nfts.get(&n)));
            }
        } else if !born.is_empty() || c.post.last_nonce != c.pre.last_nonce {
            return bad("account opened", format!("{}: {:?}", c.name(), born));
        }
        let closes = matches!(c.op, Op::Withdraw { .. } | Op::RepayColl { .. } | Op::Clean { .. });
        let sub = subject(c.op, c.pre);
        for n in &died {
            if !closes || sub != Some(*n) {
                return bad("account removed", format!("{}: account {}", c.name(), n));
            }
            for b in [1u8, 2] {
                if !w.positions(*n, b).is_empty() {
                    return bad("account removed", format!("{}: account {} removed with positions", c.name(), n));
                }
            }
            if matches!(c.op, Op::Clean { .. }) {
                self.gone.insert(*n);
            } else if c.post.nfts.contains_key(n) {
                return bad("NFT not burned", format!("{}: account {} closed, NFT still exists", c.name(), n));
            }
        }
        if let (Op::Withdraw { nft, .. } | Op::RepayColl { nft, .. }, true) = (c.op, died.is_empty()) {
            if let Some(a) = c.post.accts.get(nft) {
                if a.dep.is_empty() && a.bor.is_empty() {
                    return bad("account not closed", format!("{}: account {} is empty", c.name(), nft));
                }
            }
        }
        // one NFT per account, held by whoever held it
        let mut want: BTreeSet<u64> = s1.clone();
        want.extend(self.gone.iter());
        let have: BTreeSet<u64> = c.post.nfts.keys().cloned().collect();
        if want != have {
            return bad("NFTs and accounts differ", format!("{}: accounts {:?}, NFTs {:?}", c.name(), want, have));
        }
        for n in &have {
            let h1 = c.post.nfts[n];
            let h0 = c.pre.nfts.get(n).cloned().unwrap_or(Some(c.from));
            let moved = match c.op {
                Op::MoveNft { nft, to } if nft == n => Some(*to),
                _ => h0,
            };
            if h1 != moved || h1.is_none() {
                return bad("NFT holder", format!("{}: NFT {} went from {:?} to {:?}", c.name(), n, h0, h1));
            }
            let mut sum = BigInt::zero();
            for who in c.post.bals.keys().map(|k| k.0).collect::<BTreeSet<_>>() {
                let a = w.who_addr(who).unwrap();
                sum += BigInt::from(w.ch.bal_n(&a, NFT, *n));
            }
            if sum != BigInt::from(1) {
                return bad("NFT supply", format!("{}: {} copies of NFT {}", c.name(), sum, n));
            }
        }
        for (n, a) in &c.post.accts {
            for (t, p, k) in a.dep.iter().map(|(t, p)| (t, p, 1u8)).chain(a.bor.iter().map(|(t, p)| (t, p, 2u8))) {
                if p.nonce != *n || p.kind != k || p.scaled.is_negative() {
                    return bad("malformed position", format!("{}: account {} {} {:?}", c.name(), n, show(*t), p));
                }
            }
        }
        Ok(())
    }
    fn probe(&mut self, w: &mut World, s: &Snap, _spec: &Spec, step: &Step, st: &mut Stats) -> R {
        let Step::Probe { kind, from, tok, nonce, amount, .. } = step else { return Ok(()) };
        let u = user_addr(*from);
        let ctl = w.ctl.clone();
        let x = bu((*amount).max(1));
        let calls: Vec<(&str, Vec<Vec<u8>>)> = {
            let one = enc::payment(tid(*tok), 0, &x);
            vec![
                ("withdraw", vec![one.clone()]),
                ("borrow", vec![one]),
                ("swapCollateral", vec![enc::s(tid(*tok)), enc::big(&x), enc::s(tid(if *tok == 0 { 1 } else { 0 })), vec![]]),
                ("repayDebtWithCollateral", vec![enc::s(tid(*tok)), enc::big(&x), enc::s(tid(if *tok == 0 { 1 } else { 0 })), enc::b(false)]),
                ("supply", vec![]),
            ]
        };
        match kind {
            0 => {
                // a look-alike NFT of another collection, same nonce, same attributes
                let Some(a) = s.accts.get(nonce) else { return Ok(()) };
                let Some(Some(h)) = s.nfts.get(nonce) else { return Ok(()) };
                if h == from {
                    return Ok(());
                }
                let _ = a;
                let inst = {
                    let ha = user_addr(*h);
                    let acc = w.ch.st().accounts.get(&ha).unwrap();
                    acc.esdt.get_by_identifier(NFT.as_bytes()).and_then(|d| d.instances.get_by_nonce(*nonce)).map(|i| i.metadata.clone())
                };
                let Some(meta) = inst else { return Ok(()) };
                let fake = "LEND-0ff0ff";
                w.ch.st_mut().accounts.get_mut(&u).unwrap().esdt.increase_balance(fake.as_bytes().to_vec(), *nonce, &bu(1), meta);
                let toks: Vec<u8> = s.pools.keys().cloned().collect();
                let all: BTreeMap<u8, BigInt> = toks.iter().map(|t| (*t, BigInt::from(w.ch.bal(&u, tid(*t))))).collect();
                for (f, args) in &calls {
                    let fk = w.fork();
                    let mut pays = vec![(fake.to_string(), *nonce, bu(1))];
                    if *f == "supply" {
                        pays.push((tid(*tok).to_string(), 0, x.clone()));
                    }
                    let o = w.ch.call(&u, &ctl, f, args.clone(), &pays, None);
                    st.judge("look-alike NFT", (*f, *nonce, *tok));
                    let gain = toks.iter().any(|t| BigInt::from(w.ch.bal(&u, tid(*t))) > all[t]);
                    w.unfork(fk);
                    if o.ok || gain {
                        return bad("look-alike NFT accepted", format!("{} on account {} by user {}", f, nonce, from));
                    }
                }
                // and without any NFT at all
                for (f, args) in calls.iter().filter(|c| c.0 != "supply") {
                    let fk = w.fork();
                    let o = w.ch.call(&u, &ctl, f, args.clone(), &[(tid(*tok).to_string(), 0, x.clone())], None);
                    w.unfork(fk);
                    st.judge("no NFT", (*f, *tok));
                    if o.ok {
                        return bad("account not proven", format!("{} by user {} without an account NFT", f, from));
                    }
                }
            }
            _ => {
                // nobody can put money behind the number of an account that is gone or not yet there
                for n in (1..=s.last_nonce + 1).filter(|n| !s.accts.contains_key(n)).take(4) {
                    let fk = w.fork();
                    w.ch.mint(&u, tid(*tok), &x);
                    let o = w.ch.call(&u, &ctl, "supply", vec![enc::u(n)], &[(tid(*tok).to_string(), 0, x.clone())], None);
                    w.unfork(fk);
                    st.judge("deposit behind a dead number", (*tok, n > s.last_nonce));
                    if o.ok {
                        return bad("dead account used", format!("deposit of {} {} into account {} which does not exist", amount, show(*tok), n));
                    }
                }
                // the NFT of a written-off account opens nothing
                let Some(n) = self.gone.iter().next().cloned() else { return Ok(()) };
                let Some(Some(h)) = s.nfts.get(&n).cloned() else { return Ok(()) };
                let ha = user_addr(h);
                for (f, args) in &calls {
                    let fk = w.fork();
                    let mut pays = vec![(NFT.to_string(), n, bu(1))];
                    if *f == "supply" {
                        pays.push((tid(*tok).to_string(), 0, x.clone()));
                    }
                    let o = w.ch.call(&ha, &ctl, f, args.clone(), &pays, None);
                    w.unfork(fk);
                    st.judge("written-off NFT", (*f, *tok));
                    if o.ok {
                        return bad("written-off account used", format!("{} with NFT {}", f, n));
                    }
                }
            }
        }
        let _ = amount.to_u64();
        Ok(())
    }
}
