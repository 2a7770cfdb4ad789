//! Risk: views, borrowing power, health, liquidation, bad debt, risk parameter updates.
use super::*;
use crate::enc::{self, Rd};
use num_traits::{Signed, ToPrimitive};

fn debts(s: &Snap, n: u64) -> usize {
    s.accts.get(&n).map(|a| a.bor.len()).unwrap_or(0)
}

// ------------------------------------------------------------------ P06
pub struct Views;
impl Views {
    fn one(what: &str, got: Option<BigInt>, want: &BigInt, abs: u64) -> R {
        let Some(g) = got else { return bad("view unavailable", what.to_string()) };
        if !near_rel(&g, want, 1_000_000_000_000, abs) {
            return bad("view value", format!("{}: reported {}, reference {}", what, g, want));
        }
        Ok(())
    }
    /// An account whose health is exactly one: deposit and debt in the same token, then a withdrawal
    /// down to the last unit the threshold allows. It is not liquidatable, and both views say so.
    fn at_one(w: &mut World, s: &Snap, spec: &Spec, from: u8, t: u8, st: &mut Stats) -> R {
        let Some(ac) = spec.acs.get(&t) else { return Ok(()) };
        if spec.paused || ac.isolated || ac.lt == 0 || w.px_egld(t).is_none() {
            return Ok(());
        }
        let f = w.fork();
        let u = 10u128.pow(tdec(t)) / 100;
        let (keep, debt) = (10_000 * u, ac.lt as u128 * u);
        let dep = keep * 2;
        w.ch.mint(&user_addr(from), tid(t), &bu(dep));
        let n = s.last_nonce + 1;
        let ok = w.exec(from, &Op::Supply { nft: None, to: None, emode: None, pays: vec![(t, dep)] }, None).ok
            && w.exec(from, &Op::Borrow { nft: n, b: vec![(t, debt)] }, None).ok
            && w.exec(from, &Op::Withdraw { nft: n, w: vec![(t, dep - keep)] }, None).ok;
        let ns = vec![enc::u(n)];
        let h = w.view_dec("getHealthFactor", ns.clone());
        let ctl = w.ctl.clone();
        let o = w.ch.query(&ctl, "canBeLiquidated", ns);
        let liq = o.values.first().map(|v| !v.is_empty()).unwrap_or(false);
        let done = w.exec(OWNER, &Op::Liquidate { nonce: n, pays: vec![(t, u)] }, None).ok;
        w.unfork(f);
        if ok && o.ok && h == Some(ray()) {
            st.judge("health of exactly one", (t, ac.lt));
            if liq || done {
                return bad("liquidatable at one", format!("{}: view says {}, endpoint {}", show(t), liq, done));
            }
        }
        Ok(())
    }
}
struct Est {
    seized: Vec<(String, BigInt)>,
    fees: Vec<(String, BigInt)>,
    refunds: Vec<(String, BigInt)>,
    max_pay: BigInt,
    bonus: BigInt,
}
fn estimate(w: &mut World, nonce: u64, pays: &[(u8, u128)]) -> Option<Est> {
    let mut a = vec![];
    for (t, x) in pays {
        a.extend(enc::payment(tid(*t), 0, &bu(*x)));
    }
    let ctl = w.ctl.clone();
    let o = w.ch.query(&ctl, "liquidationEstimations", vec![enc::u(nonce), a]);
    if !o.ok {
        return None;
    }
    let v = o.values.first()?.clone();
    let mut r = Rd::new(&v);
    let list = |r: &mut Rd| -> Vec<(String, BigInt)> {
        let n = r.u32();
        (0..n.min(50))
            .map(|_| {
                let id = r.str();
                let _ = r.u64();
                (id, r.big())
            })
            .collect()
    };
    let seized = list(&mut r);
    let fees = list(&mut r);
    let refunds = list(&mut r);
    let max_pay = r.dec().0;
    let bonus = r.dec().0;
    if r.bad {
        return None;
    }
    Some(Est { seized, fees, refunds, max_pay, bonus })
}
impl Check for Views {
    fn probe(&mut self, w: &mut World, s: &Snap, spec: &Spec, step: &Step, st: &mut Stats) -> R {
        let Step::Probe { kind, from, tok, nonce, extra, .. } = step else { return Ok(()) };
        let ctl = w.ctl.clone();
        match kind {
            0 => {
                // account views against the reference valuation at this moment
                if extra % 3 == 0 {
                    Self::at_one(w, s, spec, *from, *tok, st)?;
                }
                let Some(a) = s.accts.get(nonce) else { return Ok(()) };
                let px = prices(w);
                // even an empty account is shown only while EGLD itself has a price
                if w.px_egld(WEGLD).is_none() {
                    return Ok(());
                }
                let acc = accrue_all(s, &spec.rates, s.now_ms);
                let Some(r) = risk(a, &acc, &px) else { return Ok(()) };
                let ns = vec![enc::u(*nonce)];
                let wad_of = |v: &BigInt| div_round(v, &p10(9));
                let n = (a.dep.len() + a.bor.len()) as u64 + 2;
                st.judge("account views", (a.dep.len(), a.bor.len(), (r.hf() * 50.0) as i64, bits(&r.coll) / 4, bits(&r.debt) / 4));
                Self::one("getTotalCollateralInEgld", w.view_dec("getTotalCollateralInEgld", ns.clone()), &wad_of(&r.coll), n)?;
                Self::one("getTotalBorrowInEgld", w.view_dec("getTotalBorrowInEgld", ns.clone()), &wad_of(&r.debt), n)?;
                Self::one("getLiquidationCollateralAvailable", w.view_dec("getLiquidationCollateralAvailable", ns.clone()), &wad_of(&r.weighted), n)?;
                Self::one("getLtvCollateralInEgld", w.view_dec("getLtvCollateralInEgld", ns.clone()), &wad_of(&r.ltv), n)?;
                let o = w.ch.query(&ctl, "canBeLiquidated", ns.clone());
                let liq = o.values.first().map(|v| !v.is_empty()).unwrap_or(false);
                // the two views never contradict each other
                if let Some(h) = w.view_dec("getHealthFactor", ns.clone()) {
                    if liq != (h < ray()) {
                        return bad("liquidatable view", format!("account {}: health factor {} but liquidatable is {}", nonce, h, liq));
                    }
                }
                if let (true, Some(h)) = (a.bor.is_empty(), w.view_dec("getHealthFactor", ns.clone())) {
                    if h <= ray() {
                        return bad("health without debt", format!("account {} owes nothing, health factor shown {}", nonce, h));
                    }
                }
                if !o.ok {
                    return bad("view unavailable", format!("canBeLiquidated: {}", o.msg));
                }
                if liq && (r.debt.is_zero() || gt_clear(&r.weighted, &r.debt)) {
                    return bad("liquidatable view", format!("account {} reported liquidatable at health {}", nonce, r.hf()));
                }
                if !liq && gt_clear(&r.debt, &r.weighted) {
                    return bad("liquidatable view", format!("account {} reported safe at health {}", nonce, r.hf()));
                }
                if r.debt > p10(15) && r.weighted > p10(15) {
                    let hf = &r.weighted * ray() / &r.debt;
                    Self::one("getHealthFactor", w.view_dec("getHealthFactor", ns.clone()), &hf, 1_000_000_000_000_000_000)?;
                }
                for (t, p) in a.dep.iter() {
                    let v = down(&amt(&p.scaled, &acc[t].si), *t);
                    Self::one("getCollateralAmountForToken", w.view_dec("getCollateralAmountForToken", vec![enc::u(*nonce), enc::s(tid(*t))]), &v, 1)?;
                }
                for (t, p) in a.bor.iter() {
                    let v = down(&amt(&p.scaled, &acc[t].bi), *t);
                    Self::one("getBorrowAmountForToken", w.view_dec("getBorrowAmountForToken", vec![enc::u(*nonce), enc::s(tid(*t))]), &v, 1)?;
                }
            }
            1 => {
                // market indexes shown are the ones an accrual at this moment stores
                let o = w.ch.query(&ctl, "getAllMarketIndexes", vec![enc::s(tid(*tok))]);
                if !o.ok {
                    return Ok(());
                }
                let v = o.values.first().cloned().unwrap_or_default();
                let mut r = Rd::new(&v);
                let _ = r.str();
                let si = r.dec().0;
                let bix = r.dec().0;
                let pe = r.dec().0;
                let pu = r.dec().0;
                let e = w.px_egld(*tok);
                let u = w.px_usd(*tok);
                st.judge("market view", (*tok, s.now_ms.saturating_sub(s.pools[tok].last).leading_zeros(), bits(&s.pools[tok].borrowed) / 4));
                if e.as_ref() != Some(&pe) || u.as_ref() != Some(&pu) {
                    return bad("market view price", format!("{}: {} {} vs {:?} {:?}", show(*tok), pe, pu, e, u));
                }
                // asked for together, markets answer as they do one by one
                let mut toks: Vec<u8> = s.pools.keys().cloned().filter(|t| w.px_egld(*t).is_some()).collect();
                let by = (*extra as usize) % toks.len().max(1);
                toks.rotate_left(by);
                let args: Vec<Vec<u8>> = toks.iter().map(|t| enc::s(tid(*t))).collect();
                let o = w.ch.query(&ctl, "getAllMarketIndexes", args.clone());
                if !o.ok {
                    return bad("market views together", o.msg);
                }
                let mut want = vec![];
                for t in &toks {
                    want.extend(w.ch.query(&ctl, "getAllMarketIndexes", vec![enc::s(tid(*t))]).values.first().cloned().unwrap_or_default());
                }
                if o.values.first().cloned().unwrap_or_default() != want {
                    return bad("market views together", format!("{:?} asked for together answer otherwise than one by one", toks));
                }
                let o = w.ch.query(&ctl, "getAllMarkets", args);
                let v = o.values.first().cloned().unwrap_or_default();
                let mut r = Rd::new(&v);
                st.judge("markets together", (toks.len(), toks.first().cloned()));
                for t in &toks {
                    let (id, at, pe, pu) = (r.str(), r.addr(), r.dec().0, r.dec().0);
                    let (e, u) = (w.px_egld(*t), w.px_usd(*t));
                    if r.bad || id != tid(*t) || at != w.pools[t].to_vec() || Some(&pe) != e.as_ref() || Some(&pu) != u.as_ref() {
                        return bad("market list", format!("{}: shown {} {} {}, expected {:?} {:?}", show(*t), id, pe, pu, e, u));
                    }
                }
                let p = &s.pools[tok];
                let ref_ = accrue(p, &spec.rates[tok], s.now_ms);
                if !near(&bix, &ref_.bi, &ref_.tol_bi) {
                    return bad("market view index", format!("{}: borrow index shown {}, reference {}", show(*tok), bix, ref_.bi));
                }
                if !w.exec(*from, &Op::UpdIdx { toks: vec![*tok] }, None).ok {
                    return Ok(());
                }
                let q = w.pool_snap(*tok);
                if q.si != si || q.bi != bix {
                    return bad("market view index", format!("{}: shown {} {}, accrued {} {}", show(*tok), si, bix, q.si, q.bi));
                }
            }
            2 => {
                // what the estimate promises is what the liquidation does
                let Some(a) = s.accts.get(nonce) else { return Ok(()) };
                if a.bor.is_empty() || spec.paused {
                    return Ok(());
                }
                let acc = accrue_all(s, &spec.rates, s.now_ms);
                let mut pays = vec![];
                for (i, (t, p)) in a.bor.iter().enumerate() {
                    let d = down(&amt(&p.scaled, &acc[t].bi), *t);
                    let k = (extra >> (8 * i % 48)) % 160 + 1;
                    let v = (d * BigInt::from(k) / BigInt::from(100)).to_u128().unwrap_or(1).max(1);
                    pays.push((*t, v));
                }
                let Some(e) = estimate(w, *nonce, &pays) else { return Ok(()) };
                let toks: Vec<u8> = s.pools.keys().cloned().collect();
                let b0: Vec<BigInt> = toks.iter().map(|t| BigInt::from(w.ch.bal(&user_addr(*from), tid(*t)))).collect();
                let o = w.exec(*from, &Op::Liquidate { nonce: *nonce, pays: pays.clone() }, None);
                if !o.ok {
                    return Ok(());
                }
                st.judge("liquidation estimate", (a.dep.len(), pays.len(), bits(&e.bonus), bits(&e.max_pay) / 3, e.refunds.len()));
                let sum = |v: &Vec<(String, BigInt)>, t: u8| -> BigInt { v.iter().filter(|x| x.0 == tid(t)).map(|x| x.1.clone()).sum() };
                // the amount it says is used up is what is not given back
                let px = prices(w);
                let (mut kept, mut slack) = (BigInt::zero(), BigInt::from(2));
                for (t, x) in &pays {
                    let Some(p) = px.get(t) else { return Ok(()) };
                    kept += up(&bi(*x), *t) * p / wad() / p10(9);
                    slack += unit(*t) * p / wad() / p10(9) * 2 + 2;
                }
                for t in &toks {
                    if let Some(p) = px.get(t) {
                        kept -= up(&sum(&e.refunds, *t), *t) * p / wad() / p10(9);
                    }
                }
                if !near(&kept, &e.max_pay, &(&slack + &kept / BigInt::from(1_000_000_000u64))) {
                    return bad("liquidation estimate", format!("account {} paying {:?}: {} used up (EGLD), {} announced", nonce, pays, kept, e.max_pay));
                }
                for (i, t) in toks.iter().enumerate() {
                    let b1 = BigInt::from(w.ch.bal(&user_addr(*from), tid(*t)));
                    let paid: BigInt = pays.iter().filter(|x| x.0 == *t).map(|x| bi(x.1)).sum();
                    let want = sum(&e.seized, *t) - sum(&e.fees, *t) + sum(&e.refunds, *t) - paid;
                    let got = b1 - &b0[i];
                    if !near_rel(&got, &want, 1_000_000_000_000, 3) {
                        return bad("liquidation estimate", format!("account {} paying {:?}: {} of {} promised, {} delivered", nonce, pays, want, show(*t), got));
                    }
                }
            }
            _ => {
                // market views against the stored market
                let p = &s.pools[tok];
                let a = w.pools[tok].clone();
                let mut q = |f: &str| -> Option<BigInt> {
                    let o = w.ch.query(&a, f, vec![]);
                    if o.ok {
                        Some(o.values.first().map(|v| enc::dec_top(v)).unwrap_or_default())
                    } else {
                        None
                    }
                };
                let u = util_q(p);
                let k = p10(23);
                let ur = div_round(&u, &k);
                let r = annual_q(&spec.rates[tok], &u);
                let per_ms = &r / &k / BigInt::from(YEAR_MS);
                st.judge("pool views", (*tok, (ratio(&u, &q1()) * 40.0) as i64, spec.rates[tok].rf));
                for (f, x) in [
                    ("getSuppliedScaled", p.supplied.clone()),
                    ("getBorrowedScaled", p.borrowed.clone()),
                    ("getRevenueScaled", p.revenue.clone()),
                    ("getSupplyIndex", p.si.clone()),
                    ("getBorrowIndex", p.bi.clone()),
                ] {
                    Self::one(f, q(f), &x, 0)?;
                }
                let util = q("capitalUtilisation");
                let br = q("borrowRate");
                let dr = q("depositRate");
                let res = q("reserves");
                let rev = q("protocolRevenue");
                let sup = q("suppliedAmount");
                let bor = q("borrowedAmount");
                // both amounts are rounded to whole RAY units first
                let (sa, ba) = (amt(&p.supplied, &p.si), amt(&p.borrowed, &p.bi));
                let g = if sa.is_zero() { BigInt::zero() } else { (ray() * BigInt::from(2) + &ur * BigInt::from(2)) / &sa };
                if (ba.is_zero() || sa < ray() / 1_000u32) && !g.is_zero() && util.is_some() && near(util.as_ref().unwrap(), &ur, &(&g + 2u8)) {
                    return Ok(());
                }
                Self::one("capitalUtilisation", util, &ur, 1_000_000_000)?;
                Self::one("borrowRate", br, &per_ms, 8)?;
                let one = q1();
                let dep = (&u * &r / &one) * BigInt::from(10_000 - spec.rates[tok].rf.min(10_000)) / BigInt::from(10_000) / &k / BigInt::from(YEAR_MS);
                Self::one("depositRate", dr, &dep, 16)?;
                Self::one("reserves", res, &p.bal, 0)?;
                let si = amt(&p.revenue, &p.si);
                Self::one("protocolRevenue", rev, &down(&si, *tok), 1)?;
                Self::one("suppliedAmount", sup, &down(&amt(&p.supplied, &p.si), *tok), 1)?;
                Self::one("borrowedAmount", bor, &down(&amt(&p.borrowed, &p.bi), *tok), 1)?;
                for (f, x) in [("getLastTimestamp", p.last), ("deltaTime", s.now_ms - p.last)] {
                    let o = w.ch.query(&a, f, vec![]);
                    let got = o.values.first().map(|v| enc::to_u64(v)).unwrap_or(0);
                    if !o.ok || got != x {
                        return bad("view", format!("{} of {}: {} instead of {}", f, show(*tok), got, x));
                    }
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P09
/// A fresh account whose deposit and debt are the same token, at an index of exactly one, so that
/// limits are met exactly. Returns its number.
fn one_token(w: &mut World, last: u64, from: u8, t: u8, dep: u128, debt: u128) -> Option<u64> {
    w.ch.mint(&user_addr(from), tid(t), &bu(dep));
    let n = last + 1;
    let ok = w.exec(from, &Op::Supply { nft: None, to: None, emode: None, pays: vec![(t, dep)] }, None).ok
        && (debt == 0 || w.exec(from, &Op::Borrow { nft: n, b: vec![(t, debt)] }, None).ok);
    let p = w.pool_snap(t);
    if ok && p.si == ray() && p.bi == ray() {
        Some(n)
    } else {
        None
    }
}
/// what a hair of a limit decides: `(within, at, above)` of the same operation
fn at_limit(w: &mut World, from: u8, mk: &dyn Fn(u128) -> Op, at: u128) -> (bool, Out, bool) {
    let mut r = vec![];
    for x in [at - at / 1_000_000 - 1, at, at + at / 1_000_000 + 1] {
        let f = w.fork();
        r.push(w.exec(from, &mk(x), None));
        w.unfork(f);
    }
    let above = r.pop().unwrap().ok;
    let o = r.pop().unwrap();
    (r[0].ok, o, above)
}
fn limit_token(c: &Ctx) -> Option<(u8, AssetCfg)> {
    if crate::engine::h(&(format!("{:?}", c.op), c.post.now)) % 4 != 0 || c.spec.paused {
        return None;
    }
    let v: Vec<u8> = c.post.pools.iter().filter(|(_, p)| p.si == ray() && p.bi == ray()).map(|x| *x.0).collect();
    if v.is_empty() {
        return None;
    }
    let t = v[(crate::engine::h(&(c.post.now, c.name())) % v.len() as u64) as usize];
    let ac = c.spec.acs.get(&t)?.clone();
    if ac.isolated || ac.lt == 0 || ac.ltv == 0 {
        return None;
    }
    Some((t, ac))
}

pub struct BorrowLtv;
impl BorrowLtv {
    fn exact(w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        let Some((t, ac)) = limit_token(c) else { return Ok(()) };
        let f = w.fork();
        let u = 10u128.pow(tdec(t)) / 100;
        let r = one_token(w, c.post.last_nonce, 1, t, 10_000 * u, 0).map(|n| {
            let at = ac.ltv.min(ac.lt) as u128 * u;
            at_limit(w, 1, &|x| Op::Borrow { nft: n, b: vec![(t, x)] }, at)
        });
        w.unfork(f);
        let Some((within, at, above)) = r else { return Ok(()) };
        if !within {
            return Ok(());
        }
        st.judge("limit met exactly", (t, ac.ltv, ac.lt));
        if !at.ok && at.msg.starts_with("Not enough collateral") {
            return bad("loan at the limit refused", format!("{} of {}: {}", ac.ltv, show(t), at.msg));
        }
        if above {
            return bad("loan above the limit", format!("a millionth of {} above {}", show(t), ac.ltv));
        }
        Ok(())
    }
}
impl Check for BorrowLtv {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        Self::exact(w, c, st)?;
        let Op::Borrow { nft, b } = c.op else { return Ok(()) };
        if c.abort && !c.out.ok {
            return Ok(());
        }
        if c.out.ok {
            let Some(a) = c.post.accts.get(nft) else { return bad("loan without account", nft.to_string()) };
            let px = prices(w);
            let Some(r) = risk(a, &c.acc1(), &px) else { return Ok(()) };
            st.judge("loan granted", (a.dep.len(), a.bor.len(), (ratio(&r.debt, &r.ltv) * 200.0) as i64, bits(&r.debt) / 3));
            if !ge(&r.ltv, &r.debt) {
                return bad(
                    "loan above borrowing power",
                    format!("account {} borrowed {:?}: debt {} against borrowing power {} (EGLD, RAY)", nft, b, r.debt, r.ltv),
                );
            }
        } else if c.out.msg.contains("Not enough collateral available for this loan") {
            let Some(a) = c.pre.accts.get(nft) else { return Ok(()) };
            let px = prices(w);
            let Some(r) = risk(a, &c.acc0(), &px) else { return Ok(()) };
            let mut want = r.debt.clone();
            for (t, x) in b {
                let Some(p) = px.get(t) else { return Ok(()) };
                want += up(&bi(*x), *t) * p / wad();
            }
            st.judge("loan refused", (a.dep.len(), a.bor.len(), (ratio(&want, &r.ltv).min(9.0) * 200.0) as i64, bits(&want) / 3));
            if gt_clear(&r.ltv, &want) {
                return bad(
                    "loan refused within borrowing power",
                    format!("account {} asked {:?}: debt would be {} against borrowing power {}", nft, b, want, r.ltv),
                );
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P10
pub struct EndHealthy;
impl EndHealthy {
    fn exact(w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        let Some((t, ac)) = limit_token(c) else { return Ok(()) };
        let f = w.fork();
        let u = 10u128.pow(tdec(t)) / 100;
        let r = one_token(w, c.post.last_nonce, 1, t, 20_000 * u, ac.lt as u128 * u)
            .map(|n| at_limit(w, 1, &|x| Op::Withdraw { nft: n, w: vec![(t, x)] }, 10_000 * u));
        w.unfork(f);
        let Some((within, at, above)) = r else { return Ok(()) };
        if !within {
            return Ok(());
        }
        st.judge("health met exactly", (t, ac.lt));
        if !at.ok && at.msg.contains("Health factor") {
            return bad("withdrawal down to a health of one refused", format!("{}: {}", show(t), at.msg));
        }
        if above {
            return bad("left liquidatable", format!("a millionth of {} below a health of one", show(t)));
        }
        Ok(())
    }
}
impl Check for EndHealthy {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        Self::exact(w, c, st)?;
        let n = match c.op {
            Op::Withdraw { .. } | Op::Multiply { .. } | Op::SwapDebt { .. } | Op::SwapColl { .. } | Op::RepayColl { .. } | Op::Borrow { .. } => {
                subject(c.op, c.pre).unwrap()
            }
            _ => return Ok(()),
        };
        if c.out.ok {
            let Some(a) = c.post.accts.get(&n) else { return Ok(()) };
            if a.bor.is_empty() {
                return Ok(());
            }
            let px = prices(w);
            let Some(r) = risk(a, &c.acc1(), &px) else { return Ok(()) };
            st.judge("left healthy", (c.name(), a.dep.len(), a.bor.len(), (r.hf() * 200.0).min(1e6) as i64));
            if !ge(&r.weighted, &r.debt) {
                return bad(
                    "left liquidatable",
                    format!("{} left account {} with weighted collateral {} against debt {} (health {})", c.name(), n, r.weighted, r.debt, r.hf()),
                );
            }
        } else if let Op::Withdraw { w: ws, .. } = c.op {
            if !c.out.msg.contains("Health factor will be too low") {
                return Ok(());
            }
            let Some(a) = c.pre.accts.get(&n) else { return Ok(()) };
            let mut a = a.clone();
            let acc = c.acc0();
            for (t, x) in ws {
                let Some(p) = a.dep.get_mut(t) else { return Ok(()) };
                let full = down(&amt(&p.scaled, &acc[t].si), *t);
                if bi(*x) >= full {
                    a.dep.remove(t);
                } else {
                    p.scaled -= super::money::scale_for(&bi(*x), *t, &acc[t].si);
                }
            }
            let px = prices(w);
            let Some(r) = risk(&a, &acc, &px) else { return Ok(()) };
            st.judge("withdrawal refused", (a.dep.len(), a.bor.len(), (r.hf() * 200.0).min(1e6) as i64));
            if gt_clear(&r.weighted, &r.debt) {
                return bad(
                    "safe withdrawal refused",
                    format!("account {} withdrawing {:?} would keep weighted collateral {} against debt {}", n, ws, r.weighted, r.debt),
                );
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P11 P12 P13
struct Liq {
    r0: Risk,
    r1: Risk,
    refr: LiqRef,
    px: BTreeMap<u8, BigInt>,
    /// debt removed, raw, at post indexes
    paid: BTreeMap<u8, BigInt>,
    /// deposit taken (gross), raw
    seized: BTreeMap<u8, BigInt>,
    paid_egld: f64,
    seized_egld: f64,
    /// value of one smallest unit of every token involved, EGLD
    grain: f64,
    a0: Acct,
}
fn liq(w: &mut World, c: &Ctx, nonce: u64) -> Option<Liq> {
    let a0 = c.pre.accts.get(&nonce)?.clone();
    let a1 = c.post.accts.get(&nonce)?.clone();
    let px = prices(w);
    let r0 = risk(&a0, &c.acc0(), &px)?;
    let r1 = risk(&a1, &c.acc1(), &px)?;
    let refr = liq_ref(&r0);
    let (mut paid, mut seized) = (BTreeMap::new(), BTreeMap::new());
    let (mut pe, mut se, mut grain) = (0.0, 0.0, 0.0);
    let val = |t: u8, v: &BigInt| -> f64 { f(v) / 1e27 * f(&px[&t]) / 1e18 };
    for (t, p) in &a0.bor {
        let d = &p.scaled - scaled(c.post, nonce, *t, true);
        let v = amt(&d, &c.post.pools[t].bi);
        pe += val(*t, &v);
        grain += val(*t, &unit(*t));
        paid.insert(*t, v);
    }
    for (t, p) in &a0.dep {
        let d = &p.scaled - scaled(c.post, nonce, *t, false);
        let v = amt(&d, &c.post.pools[t].si);
        se += val(*t, &v);
        grain += val(*t, &unit(*t));
        seized.insert(*t, v);
    }
    Some(Liq { r0, r1, refr, px, paid, seized, paid_egld: pe, seized_egld: se, grain, a0 })
}
pub fn eg(v: &BigInt) -> f64 {
    f(v) / 1e27
}

pub struct LiqTerms;
impl Check for LiqTerms {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if let Some((t, _)) = limit_token(c) {
            Views::at_one(w, c.post, c.spec, 1, t, st)?;
        }
        let Op::Liquidate { nonce, pays } = c.op else { return Ok(()) };
        if !c.out.ok {
            if c.out.msg.contains("Health not low enough") {
                let Some(a) = c.pre.accts.get(nonce) else { return Ok(()) };
                let px = prices(w);
                let Some(r) = risk(a, &c.acc0(), &px) else { return Ok(()) };
                st.judge("liquidation refused", (a.dep.len(), a.bor.len(), (r.hf() * 100.0).min(1e5) as i64));
                if gt_clear(&r.debt, &r.weighted) {
                    return bad("unhealthy account protected", format!("account {} health {} refused", nonce, r.hf()));
                }
            }
            return Ok(());
        }
        let Some(l) = liq(w, c, *nonce) else { return bad("liquidated account vanished", nonce.to_string()) };
        if l.r0.debt.is_zero() || gt_clear(&l.r0.weighted, &l.r0.debt) {
            return bad("healthy account liquidated", format!("account {} health {}", nonce, l.r0.hf()));
        }
        let coll = eg(&l.r0.coll);
        st.judge(
            "liquidation terms",
            (l.a0.dep.len(), l.a0.bor.len(), pays.len(), (l.r0.hf() * 100.0) as i64, (l.refr.bonus * 1000.0) as i64, l.refr.fuzzy),
        );
        // never more than the maximum bonus
        let cap = 0.15f64;
        let slack = 2.0 * l.grain + 1e-24;
        if l.seized_egld > l.paid_egld * (1.0 + cap) * (1.0 + 1e-9) + slack {
            return bad(
                "seized more than debt plus maximum bonus",
                format!("account {}: repaid {} EGLD, seized {} EGLD, maximum bonus {}; payments {:?}", nonce, l.paid_egld, l.seized_egld, cap, pays),
            );
        }
        if !l.refr.fuzzy {
            let want = (l.paid_egld * (1.0 + l.refr.bonus)).min(coll);
            let tol = want * 1e-6 + slack * 2.0;
            if (l.seized_egld - want).abs() > tol {
                return bad(
                    "seizure does not match repayment and bonus",
                    format!(
                        "account {} (health {}): repaid {} EGLD with bonus {} should take {}, took {} (tolerance {}); payments {:?}",
                        nonce,
                        l.r0.hf(),
                        l.paid_egld,
                        l.refr.bonus,
                        want,
                        l.seized_egld,
                        tol,
                        pays
                    ),
                );
            }
            // each collateral contributes its share of value
            if coll > 0.0 {
                let acc = c.acc0();
                for (t, v) in &l.seized {
                    let have = amt(&l.a0.dep[t].scaled, &acc[t].si);
                    let want = f(&have) * (want / coll);
                    // values are whole 1e-27 EGLD
                    let q = 4.0 * (1.0 + want / f(&have).max(1.0) + l.seized_egld) * 1e18 / f(&l.px[t]).max(1.0);
                    let tol = want * 1e-6 + f(&unit(*t)) * 2.0 + (slack / coll) * f(&have) + q;
                    if (f(v) - want).abs() > tol {
                        return bad(
                            "collateral not seized in proportion",
                            format!("account {}: {} of {} {} (RAY) taken, its share is {}", nonce, v, have, show(*t), want),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

pub struct LiqAccounting;
impl Check for LiqAccounting {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        let Op::Liquidate { nonce, pays } = c.op else { return Ok(()) };
        if !c.out.ok {
            return Ok(());
        }
        let Some(l) = liq(w, c, *nonce) else { return bad("liquidated account vanished", nonce.to_string()) };
        let offered = by_tok(pays);
        for (t, p1) in &c.post.pools {
            let p0 = &c.pre.pools[t];
            let paid = l.paid.get(t).cloned().unwrap_or_default();
            let seized = l.seized.get(t).cloned().unwrap_or_default();
            if paid.is_negative() || seized.is_negative() {
                return bad("liquidation grew a position", format!("account {} {}", nonce, show(*t)));
            }
            // treasury share of the bonus part
            let (_, rev, _) = split(p0, &c.spec0.rates[t], &p1.bi);
            let fee = amt(&(&p1.revenue - &rev), &p1.si);
            let d_liq = up(&c.dbal(Who::User(c.from), *t), *t);
            let d_pool = up(&c.dbal(Who::Pool(*t), *t), *t);
            let tol = unit(*t) * BigInt::from(2 + 2 * pays.len())
                + (&p1.si + &p1.bi + &p0.supplied + &rev) * BigInt::from(8) / ray()
                + if p0.supplied.is_zero() { BigInt::zero() } else { &rev * BigInt::from(8) / &p0.supplied };
            let want = &seized - &fee - &paid;
            if !paid.is_zero() || !seized.is_zero() {
                st.judge("liquidation settlement", (*t, bits(&paid) / 3, bits(&seized) / 3, bits(&fee) / 3));
            }
            if !near(&d_liq, &want, &tol) {
                return bad(
                    "liquidator settlement",
                    format!("account {}: {} repaid {} seized {} treasury {}, liquidator moved by {}", nonce, show(*t), paid, seized, fee, d_liq),
                );
            }
            if !near(&d_pool, &-want, &tol) {
                return bad("liquidation custody", format!("{}: market cash moved by {}", show(*t), d_pool));
            }
            if -d_liq.clone() > up(&offered.get(t).cloned().unwrap_or_default(), *t) {
                return bad("liquidator charged more than offered", show(*t).to_string());
            }
            // fee = fee rate × bonus part
            let bps = l.a0.dep.get(t).map(|p| p.fee.to_u64().unwrap_or(0)).unwrap_or(0) as f64 / 1e4;
            if !l.refr.fuzzy {
                let b = l.refr.bonus;
                let want = f(&seized) * (b / (1.0 + b)) * bps;
                let q = 8.0 * (1.0 + l.seized_egld) * 1e18 / f(&l.px.get(t).cloned().unwrap_or_default()).max(1.0);
                if (f(&fee) - want).abs() > want * 1e-5 + f(&tol) + q {
                    return bad(
                        "treasury share of liquidation",
                        format!("account {}: seized {} {}, bonus {}, fee rate {}: treasury got {}, expected {}", nonce, seized, show(*t), b, bps, fee, want),
                    );
                }
            } else if f(&fee) > f(&seized) * (0.15 / 1.15) * bps * 1.00001 + f(&tol) + 8.0 * (1.0 + l.seized_egld) * 1e18 / f(&l.px.get(t).cloned().unwrap_or_default()).max(1.0) {
                return bad("treasury share of liquidation", format!("{}: seized {} fee {}", show(*t), seized, fee));
            }
        }
        Ok(())
    }
}

pub struct LiqProgress;
impl Check for LiqProgress {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        let Op::Liquidate { nonce, pays } = c.op else { return Ok(()) };
        if !c.out.ok {
            return Ok(());
        }
        let Some(l) = liq(w, c, *nonce) else { return bad("liquidated account vanished", nonce.to_string()) };
        if l.refr.fuzzy {
            return Ok(());
        }
        let max = l.refr.max_repay / 1e27;
        let slack = 2.0 * l.grain + 1e-24;
        st.judge(
            "liquidation size",
            (l.a0.dep.len(), l.a0.bor.len(), (l.r0.hf() * 100.0) as i64, l.paid_egld >= max * 0.999, (eg(&l.r0.coll).max(1e-27).log2()) as i64),
        );
        if l.paid_egld > max * (1.0 + 1e-6) + slack {
            return bad(
                "liquidated more than needed",
                format!("account {} (health {}): {} EGLD repaid, at most {} is needed; payments {:?}", nonce, l.r0.hf(), l.paid_egld, max, pays),
            );
        }
        // a full-size liquidation of a solvent account restores it
        let b = l.refr.bonus;
        let recover = {
            let coll = eg(&l.r0.coll);
            let prop = eg(&l.r0.weighted) / coll;
            let debt = eg(&l.r0.debt);
            let sw = (prop * max * (1.0 + b)).min(eg(&l.r0.weighted));
            let nd = debt - max;
            if nd <= debt * 1e-12 {
                2.0
            } else {
                (eg(&l.r0.weighted) - sw) / nd
            }
        };
        if recover > 1.0 + 1e-6 && l.paid_egld >= max * (1.0 - 1e-7) && l.grain < 1e-6 * max {
            if l.r1.debt.is_zero() {
                return Ok(());
            }
            if l.r1.hf() < 1.0 - 1e-6 {
                return bad("full liquidation left the account unhealthy", format!("account {}: health {} → {}", nonce, l.r0.hf(), l.r1.hf()));
            }
        }
        // any liquidation that can help does help
        let prop = ratio(&l.r0.weighted, &l.r0.coll);
        if prop * (1.0 + b) < l.r0.hf() * (1.0 - 1e-6) && l.paid_egld > 1e6 * l.grain && l.r1.hf() < l.r0.hf() * (1.0 - 1e-9) {
            return bad("liquidation made the account worse", format!("account {}: health {} → {}", nonce, l.r0.hf(), l.r1.hf()));
        }
        let _ = l.px;
        Ok(())
    }
    /// A liquidatable account can actually be liquidated.
    fn probe(&mut self, w: &mut World, s: &Snap, spec: &Spec, step: &Step, st: &mut Stats) -> R {
        let Step::Probe { from, extra, .. } = step else { return Ok(()) };
        if spec.paused {
            return Ok(());
        }
        let px = prices(w);
        let acc = accrue_all(s, &spec.rates, s.now_ms);
        let bad_: Vec<&Acct> = s
            .accts
            .values()
            .filter(|a| match risk(a, &acc, &px) {
                Some(r) => !r.debt.is_zero() && gt_clear(&r.debt, &r.weighted),
                None => false,
            })
            .collect();
        if bad_.is_empty() {
            return Ok(());
        }
        let a = bad_[(*extra as usize) % bad_.len()];
        let r = risk(a, &acc, &px).unwrap();
        if eg(&r.coll) < 1e-6 || eg(&r.debt) < 1e-6 {
            return Ok(());
        }
        let mut pays = vec![];
        for (t, p) in &a.bor {
            let d = down(&amt(&p.scaled, &acc[t].bi), *t);
            // a part, everything, or more than is owed
            let k = match (extra >> 16) % 4 {
                0 => 100,
                1 => 100 + (extra >> 8) % 100 + 1,
                _ => (extra >> 8) % 100 + 1,
            };
            let v = (d * BigInt::from(k) / BigInt::from(100)).to_u128().unwrap_or(1).max(1);
            pays.push((*t, v));
        }
        // or what the estimate asks for, rounded up to whole units
        if (extra >> 20) % 3 == 0 {
            if let Some(e) = estimate(w, a.nonce, &[]) {
                let mut left = e.max_pay.clone();
                pays.clear();
                for (t, p) in &a.bor {
                    if left <= BigInt::zero() {
                        break;
                    }
                    let d = down(&amt(&p.scaled, &acc[t].bi), *t);
                    let ten = BigInt::from(10).pow(tdec(*t));
                    let want: BigInt = (&left * &ten + &px[t] - 1) / &px[t];
                    let v = want.min(d);
                    left -= &v * &px[t] / &ten;
                    if let Some(v) = v.to_u128().filter(|v| *v > 0) {
                        pays.push((*t, v));
                    }
                }
                if pays.is_empty() {
                    return Ok(());
                }
            }
        }
        // the part left of a payment after the cap may round to nothing; keep sizes meaningful
        let lr = liq_ref(&r);
        let unit = pays.iter().map(|(t, _)| f(&unit(*t)) / 1e27 * f(&px[t]) / 1e18).fold(0f64, f64::max);
        if lr.fuzzy || lr.max_repay / 1e27 < 1e-6 || lr.max_repay / 1e27 < 4.0 * unit {
            return Ok(());
        }
        let o = w.exec(*from, &Op::Liquidate { nonce: a.nonce, pays: pays.clone() }, None);
        st.judge("liquidation possible", (a.dep.len(), a.bor.len(), (r.hf() * 100.0) as i64, o.ok, pays.len()));
        if o.ok {
            return Ok(());
        }
        let m = &o.msg;
        let env = m.contains("Insufficient liquidity")
            || m.contains("safety range")
            || m.contains("stale")
            || m.contains("Pair not active")
            || m.contains("Withdraw amount less than liquidation fee");
        if !env {
            return bad("liquidation impossible", format!("account {} health {} paying {:?}: {}", a.nonce, r.hf(), pays, m));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P14
pub struct BadDebt;
fn a_toks(s: &Snap, nonce: u64) -> std::collections::BTreeSet<u8> {
    s.accts.get(&nonce).map(|a| a.dep.keys().chain(a.bor.keys()).cloned().collect()).unwrap_or_default()
}
impl Check for BadDebt {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        // a write-off takes the money of a market's depositors, never the market itself
        let floored = |s: &Snap| s.pools.values().any(|p| p.si <= BigInt::from(1_000_000u32));
        if !c.abort && !c.out.ok && matches!(c.op, Op::Supply { .. } | Op::Borrow { .. } | Op::Withdraw { .. } | Op::Repay { .. } | Op::UpdIdx { .. } | Op::Claim { .. } | Op::Clean { .. }) && c.out.msg.contains("panic") && floored(c.pre) {
            return bad("market dead after a write-off", format!("{}: {}", c.name(), c.out.msg));
        }
        let Op::Clean { nonce } = c.op else { return Ok(()) };
        if c.out.ok {
            for t in a_toks(c.pre, *nonce) {
                if w.px_egld(t).is_none() {
                    continue;
                }
                let k = w.fork();
                let (now, round) = (w.ch.now_ms(), w.ch.st().current_block_info.block_round);
                w.ch.set_time_ms(now + 1, round + 1);
                let o = w.exec(1, &Op::UpdIdx { toks: vec![t] }, None);
                w.unfork(k);
                st.judge("market used after a write-off", (t, o.ok, floored(c.post)));
                if !o.ok {
                    return bad("market dead after a write-off", format!("{}: {}", show(t), o.msg));
                }
            }
        }
        if c.abort && !c.out.ok {
            return Ok(());
        }
        let Some(a) = c.pre.accts.get(nonce) else {
            if c.out.ok {
                return bad("cleaned an unknown account", nonce.to_string());
            }
            return Ok(());
        };
        let px = prices(w);
        let Some(eu) = w.px_usd(WEGLD) else { return Ok(()) };
        let acc = c.acc0();
        let Some(r) = risk(a, &acc, &px) else { return Ok(()) };
        let usd = |v: &BigInt| -> f64 { eg(v) * f(&eu) / 1e18 };
        let (cu, du) = (usd(&r.coll), usd(&r.debt));
        let hair = 1e-12 * (cu + du) + 1e-16;
        if !c.out.ok {
            if c.out.msg.contains("Cannot clean bad debt") {
                st.judge("write-off refused", (a.dep.len(), a.bor.len(), cu <= 5.0, du > cu));
                if du > cu + hair && cu < 5.0 - hair {
                    return bad("bad debt kept", format!("account {} owes {} USD with {} USD of collateral", nonce, du, cu));
                }
            }
            return Ok(());
        }
        st.judge("write-off", (a.dep.len(), a.bor.len(), (cu * 2.0) as i64, (du + 1.0).log2() as i64, a.iso));
        if du < cu - hair || cu > 5.0 + hair {
            return bad("solvent account written off", format!("account {} owes {} USD with {} USD of collateral", nonce, du, cu));
        }
        if c.post.accts.contains_key(nonce) || !w.positions(*nonce, 1).is_empty() || !w.positions(*nonce, 2).is_empty() {
            return bad("written-off account still open", nonce.to_string());
        }
        for (t, p0) in &c.pre.pools {
            let p1 = &c.post.pools[t];
            let dep = a.dep.get(t).map(|p| p.scaled.clone()).unwrap_or_default();
            let bor = a.bor.get(t).map(|p| p.scaled.clone()).unwrap_or_default();
            if dep.is_zero() && bor.is_zero() {
                if p0 != p1 {
                    return bad("write-off touched another market", show(*t).to_string());
                }
                continue;
            }
            let (si, rev, sup) = split(p0, &c.spec0.rates[t], &p1.bi);
            if p1.borrowed != &p0.borrowed - &bor {
                return bad("written-off debt not removed", format!("{}: {} → {}", show(*t), p0.borrowed, p1.borrowed));
            }
            let tol_c = tol_claim(p0, &si, &rev);
            if !near(&p1.revenue, &(&rev + &dep), &tol_c) || !near(&p1.supplied, &sup, &tol_c) {
                return bad("seized collateral not with the treasury", format!("{}: treasury claim {} → {}, seized {}", show(*t), rev, p1.revenue, dep));
            }
            if c.dbal(Who::Pool(*t), *t) != BigInt::zero() {
                return bad("write-off moved cash", show(*t).to_string());
            }
            let debt = amt(&bor, &p1.bi);
            let total = amt(&p1.supplied, &si);
            if total.is_zero() {
                continue;
            }
            let want = if debt >= total { BigInt::zero() } else { &si - div_round(&(&si * &debt), &total) };
            let tol = &si * BigInt::from(8) / ray() + BigInt::from(16) + ray() * BigInt::from(8) / (&p0.supplied + 1);
            if !near(&p1.si, &want, &tol) {
                return bad(
                    "loss not shared by suppliers",
                    format!("{}: debt {} of {} written off, supply index {} → {}, expected {}", show(*t), debt, total, si, p1.si, want),
                );
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P15
pub struct Params;
impl Params {
    fn terms(spec: &Spec, t: u8, emode: u8) -> Option<(u64, u64, u64, u64)> {
        let ac = spec.acs.get(&t)?;
        if emode == 0 {
            return Some((ac.ltv, ac.lt, ac.bonus, ac.fee));
        }
        let e = spec.emodes.get(&emode)?;
        if e.assets.contains_key(&t) {
            Some((e.ltv, e.lt, e.bonus, ac.fee))
        } else {
            None
        }
    }
}
impl Check for Params {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        let same = |a: &Pos, b: &Pos| (&a.lt, &a.ltv, &a.bonus, &a.fee) == (&b.lt, &b.ltv, &b.bonus, &b.fee);
        match c.op {
            Op::UpdThreshold { tok, risks, nonces } => {
                for (n, a) in &c.pre.accts {
                    let b = &c.post.accts[n];
                    for (t, p) in &a.dep {
                        let q = &b.dep[t];
                        if !nonces.contains(n) || t != tok {
                            if p != q {
                                return bad("unrelated terms changed", format!("account {} {}", n, show(*t)));
                            }
                            continue;
                        }
                        if p.scaled != q.scaled {
                            return bad("terms update moved funds", format!("account {} {}", n, show(*t)));
                        }
                        let Some((ltv, lt, bonus, fee)) = Self::terms(c.spec0, *t, a.emode) else {
                            return bad("terms updated from a category that does not hold the asset", format!("account {} {}", n, show(*t)));
                        };
                        let (wltv, wlt, wb, wf) = if *risks {
                            (p.ltv.clone(), BigInt::from(lt), p.bonus.clone(), p.fee.clone())
                        } else {
                            (BigInt::from(ltv), p.lt.clone(), BigInt::from(bonus), BigInt::from(fee))
                        };
                        st.judge("terms updated", (*risks, a.emode > 0, &p.lt != &q.lt || &p.ltv != &q.ltv, a.bor.len()));
                        if (&q.ltv, &q.lt, &q.bonus, &q.fee) != (&wltv, &wlt, &wb, &wf) {
                            return bad(
                                "terms update",
                                format!("account {} {} (risky {}): ltv {} lt {} bonus {} fee {}, expected {} {} {} {}", n, show(*t), risks, q.ltv, q.lt, q.bonus, q.fee, wltv, wlt, wb, wf),
                            );
                        }
                        if *risks && !b.bor.is_empty() {
                            let px = prices(w);
                            let acc1 = c.acc1();
                            let Some(r) = risk(b, &acc1, &px) else { continue };
                            if !ge(&(&r.weighted * BigInt::from(20)), &(&r.debt * BigInt::from(21))) {
                                return bad("terms update endangered an account", format!("account {} health {} after the update", n, r.hf()));
                            }
                        }
                    }
                }
                for (t, p) in &c.pre.pools {
                    if c.post.pools[t].bal != p.bal || c.post.pools[t].supplied < p.supplied {
                        return bad("terms update moved funds", show(*t).to_string());
                    }
                }
            }
            Op::Supply { pays, .. } => {
                let n = subject(c.op, c.pre).unwrap();
                let Some(b) = c.post.accts.get(&n) else { return Ok(()) };
                for (t, _) in pays {
                    let Some(q) = b.dep.get(t) else { continue };
                    let old = c.pre.accts.get(&n).and_then(|a| a.dep.get(t));
                    let Some((ltv, lt, bonus, fee)) = Self::terms(c.spec0, *t, b.emode) else { continue };
                    let wlt = old.map(|p| p.lt.clone()).unwrap_or(BigInt::from(lt));
                    st.judge("terms at deposit", (*t, old.is_some(), b.emode > 0, old.map(|p| same(p, q))));
                    if (&q.ltv, &q.lt, &q.bonus, &q.fee) != (&BigInt::from(ltv), &wlt, &BigInt::from(bonus), &BigInt::from(fee)) {
                        return bad(
                            "terms at deposit",
                            format!("account {} {}: ltv {} lt {} bonus {} fee {}, expected {} {} {} {}", n, show(*t), q.ltv, q.lt, q.bonus, q.fee, ltv, wlt, bonus, fee),
                        );
                    }
                }
            }
            Op::Multiply { collat, .. } | Op::SwapColl { new: collat, .. } => {
                let n = subject(c.op, c.pre).unwrap();
                let Some(b) = c.post.accts.get(&n) else { return Ok(()) };
                let along: &[(u8, u128)] = match c.op {
                    Op::SwapColl { pays, .. } => pays,
                    _ => &[],
                };
                for (t, q) in &b.dep {
                    let old = c.pre.accts.get(&n).and_then(|a| a.dep.get(t));
                    if t != collat && !along.iter().any(|p| p.0 == *t) {
                        if let Some(p) = old {
                            if !same(p, q) {
                                return bad("unrelated terms changed", format!("{}: account {} {}", c.name(), n, show(*t)));
                            }
                        }
                        continue;
                    }
                    let Some((ltv, lt, bonus, fee)) = Self::terms(c.spec0, *t, b.emode) else { continue };
                    let wlt = old.map(|p| p.lt.clone()).unwrap_or(BigInt::from(lt));
                    st.judge("terms at strategy", (c.name(), *t, old.is_some(), b.emode > 0));
                    if (&q.ltv, &q.lt, &q.bonus, &q.fee) != (&BigInt::from(ltv), &wlt, &BigInt::from(bonus), &BigInt::from(fee)) {
                        return bad("terms at deposit", format!("{}: account {} {}: ltv {} lt {} bonus {} fee {}", c.name(), n, show(*t), q.ltv, q.lt, q.bonus, q.fee));
                    }
                }
            }
            // nothing else may change the terms of a surviving position: administration included
            _ => {
                for (n, a) in &c.pre.accts {
                    let Some(b) = c.post.accts.get(n) else { continue };
                    for (t, p) in &a.dep {
                        if let Some(q) = b.dep.get(t) {
                            if !same(p, q) {
                                return bad("terms changed", format!("{} changed the terms of account {} {}", c.name(), n, show(*t)));
                            }
                        }
                    }
                }
                st.judge("terms kept", (c.name(), c.pre.accts.len()));
            }
        }
        Ok(())
    }
}
