//! Money: conservation, accrual, settlement, flash loans, treasury, custody, exit, isolation of users.
use super::*;
use crate::chain::{K_POOL};
use crate::enc;
use num_traits::{One, Signed, ToPrimitive};
use std::collections::BTreeSet;

fn zero() -> BigInt {
    BigInt::zero()
}
/// RAY-precision equity of a market: cash + debts owed − deposits owed
pub fn equity(p: &PoolSnap, t: u8) -> BigInt {
    up(&p.bal, t) + amt(&p.borrowed, &p.bi) - amt(&p.supplied, &p.si)
}
pub fn scale_for(raw: &BigInt, t: u8, idx: &BigInt) -> BigInt {
    div_round(&(up(raw, t) * ray()), idx)
}
/// slack for one conversion between scaled claims and token amounts (scaled units)
fn scaled_tol(idx: &BigInt, n: i64) -> BigInt {
    BigInt::from(n) * (ray() / idx + BigInt::from(2))
}

// ------------------------------------------------------------------ P01
pub struct Solvency;
impl Check for Solvency {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        let pc = c
            .out
            .trace
            .iter()
            .filter(|(k, f)| *k == K_POOL && matches!(f.as_str(), "withdraw" | "repay" | "claimRevenue" | "seizePosition"))
            .count() as u64;
        for (t, b) in &c.post.pools {
            let Some(a) = c.pre.pools.get(t) else { continue };
            if a == b {
                continue;
            }
            let (e0, e1) = (equity(a, *t), equity(b, *t));
            let d = &e1 - &e0;
            let big = if a.supplied > b.supplied { &a.supplied } else { &b.supplied };
            let bigb = if a.borrowed > b.borrowed { &a.borrowed } else { &b.borrowed };
            // growth factors and indexes are rounded to half a RAY unit: per whole token supplied or owed, and
            // per whole token those are worth; fee/amount rounding is half a raw unit
            let tol = unit(*t) * BigInt::from(6 * pc) / BigInt::from(10)
                + (big + bigb + amt(big, &b.si) + amt(bigb, &b.bi)) * BigInt::from(2) / ray()
                + (&b.si + &b.bi) * BigInt::from(4) / ray()
                // the deposits an increase of the index is divided by are rounded to a RAY unit themselves
                + amt(&b.supplied, &b.si) / (amt(&a.supplied, &a.si) + BigInt::from(1)) * BigInt::from(2)
                + BigInt::from(1000);
            st.judge("market balance", (c.name(), *t, (d.bits() / 4), bits(&b.supplied) / 6, bits(&b.borrowed) / 6));
            if d < -tol.clone() {
                // socialised loss larger than everything supplied: nothing left to reduce
                let wiped = matches!(c.op, Op::Clean { .. }) && b.si <= BigInt::from(1_000_000u32);
                if !wiped {
                    return bad(
                        "value lost",
                        format!(
                            "{}: cash + debts − deposits of {} fell by {} (RAY units; tolerance {})",
                            c.name(),
                            show(*t),
                            -d,
                            tol
                        ),
                    );
                }
            }
            if d > tol && !a.supplied.is_zero() {
                return bad(
                    "value unaccounted",
                    format!(
                        "{}: cash + debts − deposits of {} rose by {} with nobody credited (tolerance {})",
                        c.name(),
                        show(*t),
                        d,
                        tol
                    ),
                );
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P02
pub struct Totals;
impl Check for Totals {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        for (t, p) in &c.post.pools {
            let mut d = p.revenue.clone();
            let mut b = zero();
            let mut n = 0u64;
            for a in c.post.accts.values() {
                if let Some(x) = a.dep.get(t) {
                    d += &x.scaled;
                    n += 1;
                }
                if let Some(x) = a.bor.get(t) {
                    b += &x.scaled;
                    n += 16;
                }
            }
            st.judge("totals", (c.name(), *t, n, p.revenue.is_zero()));
            if d != p.supplied {
                return bad(
                    "deposit total",
                    format!("{}: {} deposit claims sum to {} but the market records {}", c.name(), show(*t), d, p.supplied),
                );
            }
            if b != p.borrowed {
                return bad(
                    "debt total",
                    format!("{}: {} debts sum to {} but the market records {}", c.name(), show(*t), b, p.borrowed),
                );
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P03
pub struct Accrual;
impl Check for Accrual {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        for (t, b) in &c.post.pools {
            let Some(a) = c.pre.pools.get(t) else { continue };
            if a == b {
                continue;
            }
            let same_claims = a.supplied == b.supplied
                && a.borrowed == b.borrowed
                && a.bi == b.bi
                && a.si == b.si
                && a.revenue == b.revenue
                && a.last == b.last;
            if same_claims {
                continue;
            }
            let e = c.acc0_of(*t);
            st.judge(
                "borrow index",
                (c.name(), *t, e.dt == 0, (e.dt + 1).leading_zeros(), (ratio(&util_q(a), &q1()) * 20.0) as i64),
            );
            if b.last != c.post.now_ms {
                return bad(
                    "stale accrual",
                    format!("{}: {} changed but interest is only accrued to {} (now {})", c.name(), show(*t), b.last, c.post.now_ms),
                );
            }
            if !near(&b.bi, &e.bi, &e.tol_bi) {
                return bad(
                    "borrow index",
                    format!(
                        "{}: {} borrow index {} after {} ms, reference {} (± {})",
                        c.name(),
                        show(*t),
                        b.bi,
                        e.dt,
                        e.bi,
                        e.tol_bi
                    ),
                );
            }
            if b.bi < a.bi {
                return bad("borrow index fell", format!("{}: {} {} → {}", c.name(), show(*t), a.bi, b.bi));
            }
            if b.si < a.si && !matches!(c.op, Op::Clean { .. }) {
                return bad("supply index fell", format!("{}: {} {} → {}", c.name(), show(*t), a.si, b.si));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P04
pub struct Split;
impl Check for Split {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        let pure = matches!(
            c.op,
            Op::UpdIdx { .. } | Op::Supply { .. } | Op::Withdraw { .. } | Op::Borrow { .. } | Op::Repay { .. } | Op::PoolParams { .. }
        );
        let si_only = matches!(
            c.op,
            Op::Multiply { .. } | Op::SwapDebt { .. } | Op::SwapColl { .. } | Op::RepayColl { .. } | Op::Liquidate { .. } | Op::Flash { .. } | Op::Claim { .. }
        );
        if !pure && !si_only {
            return Ok(());
        }
        for (t, b) in &c.post.pools {
            let Some(a) = c.pre.pools.get(t) else { continue };
            if a.last == b.last {
                continue;
            }
            let (si, rev, _) = split(a, &c.spec0.rates[t], &b.bi);
            let tol_si = tol_si(a, &si);
            let interest = div_round(&(&a.borrowed * (&b.bi - &a.bi)), &ray());
            st.judge(
                "interest split",
                (c.name(), *t, bits(&interest) / 4, c.spec0.rates[t].rf, a.supplied.is_zero()),
            );
            if !near(&b.si, &si, &tol_si) {
                return bad(
                    "supplier share",
                    format!("{}: {} supply index {} → {}, reference {} (interest {}, fee {} bps)", c.name(), show(*t), a.si, b.si, si, interest, c.spec0.rates[t].rf),
                );
            }
            if pure {
                let tol = tol_claim(a, &si, &rev);
                if !near(&b.revenue, &rev, &tol) {
                    return bad(
                        "treasury share",
                        format!(
                            "{}: {} treasury claim {} → {}, reference {} (interest {}, fee {} bps)",
                            c.name(),
                            show(*t),
                            a.revenue,
                            b.revenue,
                            rev,
                            interest,
                            c.spec0.rates[t].rf
                        ),
                    );
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P05
pub struct RoundTrip;
impl RoundTrip {
    fn bals(w: &World, u: u8, toks: &[u8]) -> Vec<BigInt> {
        toks.iter().map(|t| BigInt::from(w.ch.bal(&user_addr(u), tid(*t)))).collect()
    }
}
impl Check for RoundTrip {
    fn probe(&mut self, w: &mut World, s: &Snap, spec: &Spec, step: &Step, st: &mut Stats) -> R {
        let Step::Probe { kind, from, tok, amount, extra, .. } = step else { return Ok(()) };
        let (u, t, a) = (*from, *tok, (*amount).max(2));
        let toks: Vec<u8> = s.pools.keys().cloned().collect();
        let b0 = Self::bals(w, u, &toks);
        let sc = |w: &mut World, n: u64, b: bool| -> BTreeMap<u8, Pos> { w.positions(n, if b { 2 } else { 1 }) };
        let n = s.last_nonce + 1;
        let sup = Op::Supply { nft: None, to: None, emode: None, pays: vec![(t, a)] };
        let abit = (a as f64).log2() as u64 / 3;
        match kind {
            0 => {
                // deposit and take it straight back, in one or two withdrawals
                if !w.exec(u, &sup, None).ok {
                    return Ok(());
                }
                let two = extra % 2 == 0;
                if two {
                    let part = (a as u64 % (extra % 1000 + 1).max(1)) as u128 % a;
                    if part > 0 && !w.exec(u, &Op::Withdraw { nft: n, w: vec![(t, part)] }, None).ok {
                        return Ok(());
                    }
                }
                let o = w.exec(u, &Op::Withdraw { nft: n, w: vec![(t, u128::MAX / 1000)] }, None);
                if !o.ok {
                    return Ok(());
                }
                let b1 = Self::bals(w, u, &toks);
                st.judge("supply then withdraw", (t, abit, two, bits(&s.pools[&t].si) > 90));
                // claims are whole RAY units of the index: nothing for ordinary indexes, visible once one such
                // unit is worth more than the token's smallest unit
                let grain = &s.pools[&t].si * BigInt::from(if two { 2 } else { 1 }) / ray() / unit(t);
                let ok = b0.iter().zip(&b1).enumerate().all(|(i, (x, y))| if toks[i] == t { (x - y).abs() <= grain } else { x == y });
                if !ok {
                    return bad("supply-withdraw round trip", format!("{} of {}: balances {:?} → {:?}", a, show(t), b0, b1));
                }
            }
            1 => {
                // deposit, borrow, repay, withdraw within one block
                let t2 = toks[(*extra as usize) % toks.len()];
                if !w.exec(u, &sup, None).ok {
                    return Ok(());
                }
                let px = prices(w);
                let (Some(p1), Some(p2)) = (px.get(&t), px.get(&t2)) else { return Ok(()) };
                if p2.is_zero() {
                    return Ok(());
                }
                let v = up(&bi(a), t) * p1 / p2;
                let room = down(&v, t2) * BigInt::from(spec.acs[&t].ltv) / BigInt::from(10_000);
                let k = (extra >> 8) % 100 + 1;
                let Some(ba) = (room * BigInt::from(k) / BigInt::from(101)).to_u128() else { return Ok(()) };
                if ba == 0 || !w.exec(u, &Op::Borrow { nft: n, b: vec![(t2, ba)] }, None).ok {
                    return Ok(());
                }
                let got: Vec<BigInt> = Self::bals(w, u, &toks);
                for (i, x) in toks.iter().enumerate() {
                    let want = &b0[i] + if *x == t2 { bi(ba) } else { zero() } - if *x == t { bi(a) } else { zero() };
                    if got[i] != want {
                        return bad("borrow payout", format!("borrowed {} of {}, balance {} want {}", ba, show(*x), got[i], want));
                    }
                }
                let split = extra % 3;
                let pays = match split {
                    0 => vec![(t2, ba)],
                    1 => {
                        let have = toks.iter().position(|x| *x == t2).and_then(|i| got[i].to_u128()).unwrap_or(u128::MAX);
                        vec![(t2, ba.saturating_mul(2).min(have))]
                    }
                    _ => vec![(t2, ba / 2), (t2, ba - ba / 2)],
                };
                let pays: Vec<(u8, u128)> = pays.into_iter().filter(|x| x.1 > 0).collect();
                let o = w.exec(u, &Op::Repay { nonce: n, pays }, None);
                if !o.ok {
                    return bad("repay refused", format!("repaying {} of {} in the block it was borrowed: {}", ba, show(t2), o.msg));
                }
                let o = w.exec(u, &Op::Withdraw { nft: n, w: vec![(t, u128::MAX / 1000)] }, None);
                if !o.ok {
                    return bad("withdraw refused", format!("after repaying everything, {} of {}: {}", a, show(t), o.msg));
                }
                let b1 = Self::bals(w, u, &toks);
                st.judge("supply, borrow, repay, withdraw", (t, t2, abit, split, k / 20));
                for (i, x) in toks.iter().enumerate() {
                    let d = &b1[i] - &b0[i];
                    let ix = std::cmp::max(&s.pools[x].si, &s.pools[x].bi);
                    let grain = ix * BigInt::from(2) / ray() / unit(*x);
                    if d > grain || d < BigInt::from(-1) - &grain {
                        return bad("borrow round trip", format!("{} {} borrowed against {} {}: balance of {} moved by {}", ba, show(t2), a, show(t), show(*x), d));
                    }
                }
            }
            2 => {
                // one deposit or two halves: same claim
                let f = w.fork();
                if !w.exec(u, &sup, None).ok {
                    return Ok(());
                }
                let one = sc(w, n, false).get(&t).map(|p| p.scaled.clone()).unwrap_or_default();
                let si = w.pool_snap(t).si;
                w.unfork(f);
                let x = a / 3 + 1;
                let o1 = w.exec(u, &Op::Supply { nft: None, to: None, emode: None, pays: vec![(t, x)] }, None);
                let rest = a - x;
                if !o1.ok || rest == 0 {
                    return Ok(());
                }
                let o2 = w.exec(u, &Op::Supply { nft: Some(n), to: None, emode: None, pays: vec![(t, rest)] }, None);
                if !o2.ok {
                    return bad("second deposit refused", o2.msg);
                }
                let two = sc(w, n, false).get(&t).map(|p| p.scaled.clone()).unwrap_or_default();
                st.judge("split deposit", (t, abit, bits(&si) / 2));
                if !near(&one, &two, &scaled_tol(&si, 3)) {
                    return bad("split deposit", format!("{} of {} at once gives claim {}, in two parts {}", a, show(t), one, two));
                }
            }
            3 => {
                // a flash loan repaid exactly costs exactly its fee
                let cash = s.pools[&t].bal.to_u128().unwrap_or(0);
                let a = a.min(cash);
                let fee = spec.acs[&t].flash_fee;
                if a == 0 {
                    return Ok(());
                }
                let need = Gen::flash_required(a, fee);
                let p0 = w.pool_snap(t);
                let f0 = BigInt::from(w.ch.bal(&w.flash.clone(), tid(t)));
                let o = w.exec(u, &Op::Flash { tok: t, amount: a, prog: vec![Act::Send(vec![(t, need)])] }, None);
                if !o.ok {
                    return Ok(());
                }
                let p1 = w.pool_snap(t);
                let f1 = BigInt::from(w.ch.bal(&w.flash.clone(), tid(t)));
                st.judge("flash loan cost", (t, abit, fee));
                let cost = bi(need - a);
                if &p1.bal - &p0.bal != cost || &f0 - &f1 != cost || Self::bals(w, u, &toks) != b0 {
                    return bad("flash loan cost", format!("{} {} fee {} bps: pool {} → {}, borrower paid {}", a, show(t), fee, p0.bal, p1.bal, f0 - f1));
                }
            }
            4 => {
                // accruing twice is accruing once; accruing before a deposit changes nothing about the deposit
                let f = w.fork();
                if !w.exec(u, &Op::UpdIdx { toks: vec![t] }, None).ok {
                    return Ok(());
                }
                let p1 = w.pool_snap(t);
                let o = w.exec(u, &Op::UpdIdx { toks: vec![t, t] }, None);
                let p2 = w.pool_snap(t);
                if o.ok && p1 != p2 {
                    return bad("repeated accrual", format!("{}: {:?} then {:?}", show(t), p1, p2));
                }
                let o1 = w.exec(u, &sup, None).ok;
                let s1 = sc(w, n, false).get(&t).map(|p| p.scaled.clone());
                let q1 = w.pool_snap(t);
                w.unfork(f);
                let o2 = w.exec(u, &sup, None).ok;
                let s2 = sc(w, n, false).get(&t).map(|p| p.scaled.clone());
                let q2 = w.pool_snap(t);
                st.judge("accrual order", (t, abit, o1, s.now_ms.saturating_sub(s.pools[&t].last).leading_zeros()));
                if o1 != o2 || (o1 && (s1 != s2 || q1 != q2)) {
                    return bad("accrual order", format!("{} {}: deposit after an explicit accrual gives {:?} {:?}, without {:?} {:?}", a, show(t), s1, q1, s2, q2));
                }
            }
            _ => {
                // pay back debt of an existing borrower fully, in two parts: total cost is the debt, never less
                let v: Vec<&Acct> = s.accts.values().filter(|x| !x.bor.is_empty()).collect();
                if v.is_empty() {
                    return Ok(());
                }
                let a = v[(*extra as usize) % v.len()];
                let ts: Vec<u8> = a.bor.keys().cloned().collect();
                let t = ts[(*extra as usize >> 4) % ts.len()];
                let e = accrue(&s.pools[&t], &spec.rates[&t], s.now_ms);
                let debt = down(&amt(&a.bor[&t].scaled, &e.bi), t);
                let Some(d) = debt.to_u128() else { return Ok(()) };
                if d < 2 {
                    return Ok(());
                }
                let x = 1 + (*extra as u128 >> 16) % (d - 1);
                let i = toks.iter().position(|y| *y == t).unwrap();
                let o = w.exec(u, &Op::Repay { nonce: a.nonce, pays: vec![(t, x)] }, None);
                if !o.ok {
                    return Ok(());
                }
                let o = w.exec(u, &Op::Repay { nonce: a.nonce, pays: vec![(t, d.saturating_mul(2))] }, None);
                if !o.ok && !o.msg.contains("insufficient funds") {
                    return bad("repay refused", format!("second part of a repayment of {} {}: {}", d, show(t), o.msg));
                }
                let b1 = Self::bals(w, u, &toks);
                let cost = &b0[i] - &b1[i];
                let left = sc(w, a.nonce, true).contains_key(&t);
                st.judge("repay in two parts", (t, bits(&debt) / 3, bits(&bi(x)) / 3));
                let slack = down(&(amt(&a.bor[&t].scaled, &e.tol_bi) + &e.bi * BigInt::from(2) / ray()), t) + 2;
                if left || (&cost - &debt).abs() > slack {
                    return bad("repay in two parts", format!("debt {} {} cost {} in two parts, left open: {}", debt, show(t), cost, left));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P07
pub struct SupplyWithdraw;
impl Check for SupplyWithdraw {
    fn probe(&mut self, w: &mut World, _s: &Snap, spec: &Spec, step: &Step, st: &mut Stats) -> R {
        super::served::served(super::served::Stage::Deposits, w, spec, step, st)
    }
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        match c.op {
            Op::Supply { pays, .. } => {
                let n = subject(c.op, c.pre).unwrap();
                let want = by_tok(pays);
                for t in c.post.pools.keys() {
                    let paid = want.get(t).cloned().unwrap_or_default();
                    let (s0, s1) = (scaled(c.pre, n, *t, false), scaled(c.post, n, *t, false));
                    let gain = &s1 - &s0;
                    let p = &c.post.pools[t];
                    st.judge("deposit credited", (*t, bits(&paid), bits(&p.si) / 3, s0.is_zero(), pays.len()));
                    let e = scale_for(&paid, *t, &p.si);
                    if !near(&gain, &e, &scaled_tol(&p.si, 2 * pays.len() as i64)) || (paid.is_zero() && !gain.is_zero()) {
                        return bad("deposit credit", format!("paid {} {}: claim grew by {}, expected {}", paid, show(*t), gain, e));
                    }
                    if c.dbal(Who::User(c.from), *t) != -paid.clone() {
                        return bad("deposit charge", format!("supplied {} {} but balance moved by {}", paid, show(*t), c.dbal(Who::User(c.from), *t)));
                    }
                    if c.dbal(Who::Pool(*t), *t) != paid {
                        return bad("deposit custody", format!("supplied {} {} but the market's cash moved by {}", paid, show(*t), c.dbal(Who::Pool(*t), *t)));
                    }
                    if scaled(c.post, n, *t, true) != scaled(c.pre, n, *t, true) {
                        return bad("deposit touched debt", format!("account {} {}", n, show(*t)));
                    }
                }
            }
            Op::Withdraw { nft, w } => {
                let mut pay: BTreeMap<u8, BigInt> = BTreeMap::new();
                let mut left: BTreeMap<u8, BigInt> = BTreeMap::new();
                let mut cnt: BTreeMap<u8, i64> = BTreeMap::new();
                for (t, a) in w {
                    let p = &c.post.pools[t];
                    let cur = left.get(t).cloned().unwrap_or_else(|| scaled(c.pre, *nft, *t, false));
                    let full = down(&amt(&cur, &p.si), *t);
                    let (take, rem) = if bi(*a) >= full {
                        (full, zero())
                    } else {
                        (bi(*a), &cur - scale_for(&bi(*a), *t, &p.si))
                    };
                    *pay.entry(*t).or_default() += take;
                    left.insert(*t, rem);
                    *cnt.entry(*t).or_default() += 1;
                }
                for t in c.post.pools.keys() {
                    let p = &c.post.pools[t];
                    let want = pay.get(t).cloned().unwrap_or_default();
                    let rem = left.get(t).cloned().unwrap_or_else(|| scaled(c.pre, *nft, *t, false));
                    let s1 = scaled(c.post, *nft, *t, false);
                    let k = cnt.get(t).cloned().unwrap_or(0);
                    if k > 0 {
                        st.judge("withdrawal paid", (*t, bits(&want), rem.is_zero(), bits(&p.si) / 3, k));
                    }
                    if !near(&s1, &rem, &scaled_tol(&p.si, 2 * k)) || (rem.is_zero() && !s1.is_zero()) {
                        return bad("withdrawal debit", format!("{} {} left claim {}, expected {}", show(*t), want, s1, rem));
                    }
                    let got = c.dbal(Who::User(c.from), *t);
                    if got != want {
                        return bad("withdrawal payout", format!("{}: paid {}, owed {}", show(*t), got, want));
                    }
                    if c.dbal(Who::Pool(*t), *t) != -want.clone() {
                        return bad("withdrawal custody", format!("{}: market cash moved by {}, owed {}", show(*t), c.dbal(Who::Pool(*t), *t), want));
                    }
                    if scaled(c.post, *nft, *t, true) != scaled(c.pre, *nft, *t, true) {
                        return bad("withdrawal touched debt", format!("account {} {}", nft, show(*t)));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P08
pub struct BorrowRepay;
impl Check for BorrowRepay {
    fn probe(&mut self, w: &mut World, _s: &Snap, spec: &Spec, step: &Step, st: &mut Stats) -> R {
        super::served::served(super::served::Stage::Loans, w, spec, step, st)
    }
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        match c.op {
            Op::Borrow { nft, b } => {
                let want = by_tok(b);
                for (t, p) in &c.post.pools {
                    let a = want.get(t).cloned().unwrap_or_default();
                    let (s0, s1) = (scaled(c.pre, *nft, *t, true), scaled(c.post, *nft, *t, true));
                    let gain = &s1 - &s0;
                    let e = scale_for(&a, *t, &p.bi);
                    if !a.is_zero() {
                        st.judge("loan recorded", (*t, bits(&a), bits(&p.bi) / 3, s0.is_zero(), b.len()));
                    }
                    if !near(&gain, &e, &scaled_tol(&p.bi, 2 * b.len() as i64)) || (a.is_zero() && !gain.is_zero()) {
                        return bad("loan debit", format!("borrowed {} {}: debt grew by {}, expected {}", a, show(*t), gain, e));
                    }
                    if c.dbal(Who::User(c.from), *t) != a || c.dbal(Who::Pool(*t), *t) != -a.clone() {
                        return bad("loan payout", format!("borrowed {} {}: received {}, market paid {}", a, show(*t), c.dbal(Who::User(c.from), *t), -c.dbal(Who::Pool(*t), *t)));
                    }
                    if scaled(c.post, *nft, *t, false) != scaled(c.pre, *nft, *t, false) {
                        return bad("loan touched deposit", format!("account {} {}", nft, show(*t)));
                    }
                }
            }
            Op::Repay { nonce, pays } => {
                let mut charged: BTreeMap<u8, BigInt> = BTreeMap::new();
                let mut left: BTreeMap<u8, BigInt> = BTreeMap::new();
                let mut cnt: BTreeMap<u8, i64> = BTreeMap::new();
                for (t, a) in pays {
                    let Some(p) = c.post.pools.get(t) else {
                        return bad("repaid in a token without market", format!("{}", show(*t)));
                    };
                    let cur = left.get(t).cloned().unwrap_or_else(|| scaled(c.pre, *nonce, *t, true));
                    let full = down(&amt(&cur, &p.bi), *t);
                    let (take, rem) =
                        if bi(*a) >= full { (full, zero()) } else { (bi(*a), &cur - scale_for(&bi(*a), *t, &p.bi)) };
                    *charged.entry(*t).or_default() += take;
                    left.insert(*t, rem);
                    *cnt.entry(*t).or_default() += 1;
                }
                for (t, p) in &c.post.pools {
                    let want = charged.get(t).cloned().unwrap_or_default();
                    let rem = left.get(t).cloned().unwrap_or_else(|| scaled(c.pre, *nonce, *t, true));
                    let s1 = scaled(c.post, *nonce, *t, true);
                    let k = cnt.get(t).cloned().unwrap_or(0);
                    if k > 0 {
                        st.judge("repayment credited", (*t, bits(&want), rem.is_zero(), bits(&p.bi) / 3, k));
                    }
                    let paid = -c.dbal(Who::User(c.from), *t);
                    let into = c.dbal(Who::Pool(*t), *t);
                    let lax = BigInt::from(if k > 1 { 1 } else { 0 });
                    if !near(&paid, &want, &lax) || paid != into {
                        return bad("repayment charge", format!("{}: charged {}, market received {}, owed {}", show(*t), paid, into, want));
                    }
                    let tol = scaled_tol(&p.bi, 2 * k) + if k > 1 { scale_for(&BigInt::one(), *t, &p.bi) } else { zero() };
                    if !near(&s1, &rem, &tol) || (k == 1 && rem.is_zero() && !s1.is_zero()) {
                        return bad("repayment credit", format!("{}: debt left {}, expected {}", show(*t), s1, rem));
                    }
                    if scaled(c.post, *nonce, *t, false) != scaled(c.pre, *nonce, *t, false) {
                        return bad("repayment touched deposit", format!("account {} {}", nonce, show(*t)));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P16
pub struct FlashLoan;
impl Check for FlashLoan {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        let Op::Flash { tok, amount, prog } = c.op else { return Ok(()) };
        let t = *tok;
        if c.abort {
            return Ok(());
        }
        let ac = &c.spec0.acs[&t];
        let need = Gen::flash_required(*amount, ac.flash_fee);
        let p0 = &c.pre.pools[&t];
        let p1 = &c.post.pools[&t];
        let calls = prog.iter().any(|a| matches!(a, Act::Call { .. }));
        let sent: u128 = prog
            .iter()
            .map(|a| match a {
                Act::Send(v) => v.iter().filter(|x| x.0 == t).map(|x| x.1).sum::<u128>(),
                _ => 0,
            })
            .sum();
        if c.out.ok {
            let gain = &p1.bal - &p0.bal;
            st.judge("flash loan completed", (t, bits(&bi(*amount)) / 2, ac.flash_fee, sent > need));
            if !ac.flash {
                return bad("flash loan while disabled", show(t).to_string());
            }
            if bi(*amount) > p0.bal {
                return bad("flash loan above cash", format!("{} of {}", amount, p0.bal));
            }
            if gain.clone() + c.dbal(Who::Acc, t) < bi(need - amount) {
                return bad("flash loan underpaid", format!("{} {} fee {} bps: market cash moved by {}, fee is {}", amount, show(t), ac.flash_fee, gain, need - amount));
            }
            for x in c.post.bals.keys().filter(|k| k.1 == JUNK && matches!(k.0, Who::Pool(_) | Who::Ctl)) {
                if c.post.bals[x] > c.pre.bals.get(x).cloned().unwrap_or_default() {
                    return bad("flash borrower's tokens kept", format!("{:?}", x));
                }
            }
            let stray: BigInt = c.dbal(Who::Ctl, t) + c.post.pools.keys().filter(|x| **x != t).map(|x| c.dbal(Who::Pool(*x), t) + c.dbal(Who::Pool(t), *x)).sum::<BigInt>();
            if !stray.is_zero() {
                return bad("flash borrower's tokens kept", format!("{} left outside the market's books", stray));
            }
            for x in c.post.pools.keys() {
                if *x != t && c.post.pools[x].bal != c.pre.pools[x].bal {
                    return bad("flash loan touched another market", show(*x).to_string());
                }
            }
            let e = c.acc0_of(t);
            let rev = amt(&p1.revenue, &p1.si) - amt(&e.revenue, &p1.si);
            let tol = (&p1.si + &e.tol_bi) * BigInt::from(8) / ray()
                + &e.tol_bi * &p0.borrowed * BigInt::from(2) / ray()
                + &p1.supplied * BigInt::from(8) / ray()
                // (a claim from inside pays whole units)
                + if calls { unit(t) } else { BigInt::from(0) }
                + BigInt::from(1000);
            if !near(&rev, &up(&gain, t), &tol) {
                return bad("flash fee to treasury", format!("{}: fee {} but treasury claim grew by {} (RAY)", show(t), gain, rev));
            }
        } else {
            // an honest borrower is served
            let one_send = prog.len() == 1 && matches!(&prog[0], Act::Send(v) if v.len() == 1 && v[0].0 == t);
            let honest = one_send && sent >= need && sent > 0 && *amount > 0 && !calls;
            if honest && ac.flash && bi(*amount) <= p0.bal && !c.spec0.paused && w.px_egld(t).is_some() {
                st.judge("flash loan refused", (t, 0u8));
                return bad("honest flash loan refused", format!("{} {} repaid {}: {}", amount, show(t), sent, c.out.msg));
            }
            st.judge("flash loan rejected", (t, sent >= need, ac.flash, bi(*amount) <= p0.bal, prog.len()));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P17
pub struct Reentry;
pub const GUARDED: [&str; 13] = [
    "supply",
    "withdraw",
    "borrow",
    "repay",
    "liquidate",
    "flashLoan",
    "updateAccountThreshold",
    "updateIndexes",
    "cleanBadDebt",
    "multiply",
    "swapDebt",
    "swapCollateral",
    "repayDebtWithCollateral",
];
impl Check for Reentry {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if c.post.flash_flag {
            return bad("flash loan still open", format!("after {}", c.name()));
        }
        let Op::Flash { prog, tok, .. } = c.op else { return Ok(()) };
        for a in prog {
            if let Act::Call { to: Tgt::Ctl, func, .. } = a {
                if GUARDED.contains(&func.as_str()) {
                    st.judge("re-entry", (func.clone(), *tok, c.out.ok));
                    if c.out.ok {
                        return bad("re-entered", format!("{} executed while a flash loan was open", func));
                    }
                }
            }
        }
        Ok(())
    }
    /// Every entry point, called with arguments that work outside a loan, from inside one.
    fn probe(&mut self, w: &mut World, s: &Snap, spec: &Spec, step: &Step, st: &mut Stats) -> R {
        let Step::Probe { tok, extra, nonce, .. } = step else { return Ok(()) };
        let t = *tok;
        if spec.paused || !spec.acs[&t].flash || s.pools[&t].bal < BigInt::from(10) || w.px_egld(t).is_none() {
            return Ok(());
        }
        let flash = w.flash.clone();
        let ctl = w.ctl.clone();
        let toks: Vec<u8> = s.pools.keys().cloned().collect();
        let o = toks[(*extra as usize) % toks.len()];
        let pay = |t: u8, a: u128| (tid(t).to_string(), 0u64, bu(a));
        // the borrowing contract has its own account with collateral and debt
        let dep = (bi(1000) * p10(tdec(o))).to_u128().unwrap();
        let r = w.ch.call(&flash, &ctl, "supply", vec![], &[pay(o, dep)], None);
        if !r.ok {
            return Ok(());
        }
        let n = s.last_nonce + 1;
        let pt = |t: u8, a: u128| enc::payment(tid(t), 0, &bu(a));
        let nftp = (NFT.to_string(), n, bu(1));
        let b = w.ch.call(&flash, &ctl, "borrow", vec![pt(t, 1 + (*extra as u128 >> 40) % 3)], &[nftp], None).ok;
        let unit = 10u128.pow(tdec(o).min(6));
        let f = GUARDED[(*extra as usize >> 8) % GUARDED.len()];
        let send_steps = |w: &World, t: u8, a: u128| -> Vec<u8> {
            let op = Op::SwapColl { nft: 0, cur: t, amount: 1, new: t, steps: vec![Act::Send(vec![(t, a)])], pays: vec![] };
            w.lower(&op).2[3].clone()
        };
        let (args, pays, nft): (Vec<Vec<u8>>, Vec<(u8, u128)>, Option<u64>) = match f {
            "supply" => (vec![], vec![(o, unit)], None),
            "withdraw" => (vec![pt(o, unit)], vec![], Some(n)),
            "borrow" => (vec![pt(t, 1)], vec![], Some(n)),
            "repay" => (vec![enc::u(n)], vec![(t, 1)], None),
            "liquidate" => (vec![enc::u(*nonce)], {
                let v: Vec<(u8, u128)> = s
                    .accts
                    .get(nonce)
                    .map(|a| a.bor.keys().take(1).map(|t| (*t, 10u128.pow(tdec(*t)))).collect())
                    .unwrap_or_default();
                v
            }, None),
            "flashLoan" => {
                let p = Op::Flash { tok: o, amount: 5, prog: vec![Act::Send(vec![(o, 100)])] };
                (w.lower(&p).2, vec![], None)
            }
            "updateAccountThreshold" => (vec![enc::s(tid(o)), enc::b(false), enc::u(n)], vec![], None),
            "updateIndexes" => (vec![enc::s(tid(o))], vec![], None),
            "cleanBadDebt" => (vec![enc::u(*nonce)], vec![], None),
            "multiply" => {
                let st = send_steps(w, o, 10 * unit);
                (vec![enc::u(0), enc::s(tid(o)), enc::u(1), enc::s(tid(t)), enc::u(2), st], vec![(o, unit)], None)
            }
            "swapDebt" => {
                let st = send_steps(w, t, 1);
                (vec![enc::s(tid(t)), enc::u(1), enc::s(tid(o)), st], vec![], Some(n))
            }
            "swapCollateral" => {
                let x = toks[(*extra as usize >> 16) % toks.len()];
                let st = send_steps(w, x, 10u128.pow(tdec(x).min(6)));
                (vec![enc::s(tid(o)), enc::u(unit as u64), enc::s(tid(x)), st], vec![], Some(n))
            }
            _ => {
                let st = send_steps(w, t, 3);
                (vec![enc::s(tid(o)), enc::u(unit as u64), enc::s(tid(t)), enc::b(false), st], vec![], Some(n))
            }
        };
        let _ = b;
        let k = w.fork();
        let mut direct: Vec<(String, u64, num_bigint::BigUint)> = vec![];
        if let Some(x) = nft {
            direct.push((NFT.to_string(), x, bu(1)));
        }
        direct.extend(pays.iter().map(|(t, a)| pay(*t, *a)));
        let works = w.ch.call(&flash, &ctl, f, args.clone(), &direct, None);
        w.unfork(k);
        if !works.ok {
            st.judge("probe not applicable", (f, works.msg.clone()));
            return Ok(());
        }
        let amount = 1 + (*extra as u128 >> 24) % 8;
        let need = Gen::flash_required(amount, spec.acs[&t].flash_fee);
        let mut prog = vec![Act::Call { to: Tgt::Ctl, func: f.to_string(), args, pays, nft }];
        prog.push(Act::Send(vec![(t, need)]));
        let r = w.exec(1, &Op::Flash { tok: t, amount, prog }, None);
        st.judge("re-entry with working call", (f, t, o));
        if r.ok {
            return bad("re-entered", format!("{} executed while a flash loan of {} was open", f, show(t)));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P29
pub struct Treasury;
impl Check for Treasury {
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            if let (Op::Claim { toks }, false) = (c.op, c.abort) {
                if toks.iter().all(|t| c.pre.pools.contains_key(t) && w.px_egld(*t).is_some()) {
                    st.judge("claim refused", toks.clone());
                    return bad("claim refused", format!("{:?}: {}", toks, c.out.msg));
                }
            }
            return Ok(());
        }
        let claim: BTreeSet<u8> = match c.op {
            Op::Claim { toks } => toks.iter().cloned().collect(),
            _ => BTreeSet::new(),
        };
        // claims asked for from inside a flash loan's callback
        let mut inner = BTreeSet::new();
        if let Op::Flash { prog, .. } = c.op {
            for a in prog {
                if let Act::Call { to: Tgt::Ctl, func, args, .. } = a {
                    if func == "claimRevenue" {
                        inner.extend((0..NTOK as u8).filter(|t| args.contains(&crate::enc::s(tid(*t)))));
                    }
                }
            }
        }
        for (t, b) in &c.post.pools {
            let Some(a) = c.pre.pools.get(t) else { continue };
            let acc_in = c.dbal(Who::Acc, *t);
            if inner.contains(t) {
                // the loan is out while the treasury is paid: what it gets comes out of what is left, and only once
                let lent = match c.op {
                    Op::Flash { tok, amount, .. } if tok == t => bi(*amount),
                    _ => zero(),
                };
                let (si, rev, _) = split(a, &c.spec0.rates[t], &b.bi);
                let owed = down(&amt(&rev, &si), *t);
                let cash = &a.bal - &lent;
                let want = if owed < cash { owed.clone() } else { cash };
                let tol = BigInt::from(1) + &a.supplied * BigInt::from(8) / ray() / unit(*t);
                st.judge("revenue claimed during a flash loan", (*t, bits(&owed) / 2, lent.is_zero()));
                if !near(&acc_in, &want, &tol) {
                    return bad("claim amount", format!("{} during a flash loan: treasury received {}, owed {}", show(*t), acc_in, owed));
                }
                let fee = &b.bal - &a.bal + &acc_in;
                let left = amt(&b.revenue, &b.si);
                let want_left = amt(&rev, &si) + up(&(&fee - &acc_in), *t);
                let tol = unit(*t) * BigInt::from(3)
                    + &rev / BigInt::from(1_000_000_000_000_000_000u64)
                    + &a.supplied * BigInt::from(8) / ray()
                    + (&b.si * BigInt::from(4)) / ray();
                if !near(&left, &want_left, &tol) {
                    return bad("claim remainder", format!("{} during a flash loan: treasury claim worth {} left, expected {} (RAY)", show(*t), left, want_left));
                }
                continue;
            }
            if claim.contains(t) {
                // what the treasury is owed now
                let (si, rev, _) = split(a, &c.spec0.rates[t], &b.bi);
                let owed = down(&amt(&rev, &si), *t);
                let want = if owed < a.bal { owed.clone() } else { a.bal.clone() };
                let tol = BigInt::from(1) + &a.supplied * BigInt::from(8) / ray() / unit(*t);
                st.judge("revenue claimed", (*t, bits(&owed) / 2, owed <= a.bal));
                if !near(&acc_in, &want, &tol) {
                    return bad("claim amount", format!("{}: treasury received {}, owed {} with {} in cash", show(*t), acc_in, owed, a.bal));
                }
                if &a.bal - &b.bal != acc_in {
                    return bad("claim custody", format!("{}: market paid {}, treasury received {}", show(*t), &a.bal - &b.bal, acc_in));
                }
                let left = amt(&b.revenue, &b.si);
                let want_left = up(&(&owed - &acc_in), *t);
                let tol = unit(*t) * BigInt::from(2)
                    + &rev / BigInt::from(1_000_000_000_000_000_000u64)
                    + &a.supplied * BigInt::from(8) / ray()
                    + (&b.si * BigInt::from(4)) / ray();
                if !near(&left, &want_left, &tol) {
                    return bad("claim remainder", format!("{}: treasury claim worth {} left, expected {} (RAY)", show(*t), left, want_left));
                }
            } else {
                if !acc_in.is_zero() {
                    return bad("treasury paid outside a claim", format!("{}: {} {}", c.name(), show(*t), acc_in));
                }
                if b.revenue < a.revenue {
                    return bad("treasury claim shrank", format!("{}: {} {} → {}", c.name(), show(*t), a.revenue, b.revenue));
                }
            }
            // what is seized from a written-off account joins the treasury's claim share for share
            if let Op::Clean { nonce } = c.op {
                let seized = scaled(c.pre, *nonce, *t, false);
                if c.pre.accts.contains_key(nonce) && !c.post.accts.contains_key(nonce) {
                    let (_, rev, _) = split(a, &c.spec0.rates[t], &b.bi);
                    let tol = BigInt::from(64) * (ray() / &b.si + BigInt::from(1))
                        + &rev * BigInt::from(8) / ray()
                        + &a.supplied * BigInt::from(8) / ray()
                        + if a.supplied.is_zero() { zero() } else { &rev * BigInt::from(8) / &a.supplied };
                    st.judge("seized to treasury", (*t, seized.is_zero(), bits(&seized) / 3, bits(&b.si)));
                    if !near(&(&b.revenue - &rev), &seized, &tol) {
                        return bad("seized to treasury", format!("{}: {} shares seized but the treasury's shares grew by {}", show(*t), seized, &b.revenue - &rev));
                    }
                }
            }
            // fees that must reach the treasury
            let fee: Option<BigInt> = match c.op {
                Op::Multiply { debt, amount, .. } if debt == t => {
                    Some(bi(mul_div(*amount, c.spec0.acs[t].flash_fee as u128, 10_000)))
                }
                Op::SwapDebt { new, amount, .. } if new == t => {
                    Some(bi(mul_div(*amount, c.spec0.acs[t].flash_fee as u128, 10_000)))
                }
                Op::Flash { tok, .. } if tok == t => Some(&b.bal - &a.bal),
                Op::Rewards { .. }
                | Op::Supply { .. }
                | Op::Withdraw { .. }
                | Op::Borrow { .. }
                | Op::Repay { .. }
                | Op::UpdIdx { .. }
                | Op::SwapColl { .. }
                | Op::RepayColl { .. }
                | Op::Multiply { .. }
                | Op::SwapDebt { .. }
                | Op::Flash { .. } => Some(zero()),
                _ => None,
            };
            if let Some(fee) = fee {
                let (si, rev, _) = split(a, &c.spec0.rates[t], &b.bi);
                let si_now = if matches!(c.op, Op::Rewards { .. }) { &si } else { &b.si };
                let gain = amt(&(&b.revenue - &rev), si_now);
                let tol = unit(*t) / BigInt::from(2)
                    + &rev * BigInt::from(8) / ray()
                    + BigInt::from(64) * (&b.si / ray() + BigInt::from(1))
                    + &a.supplied * BigInt::from(8) / ray()
                    + if a.supplied.is_zero() { zero() } else { &rev * BigInt::from(8) / &a.supplied };
                if !fee.is_zero() {
                    st.judge("fee to treasury", (c.name(), *t, bits(&fee) / 2));
                }
                if !near(&gain, &up(&fee, *t), &tol) {
                    return bad("fee to treasury", format!("{}: {} fee {} but the treasury claim grew by {} (RAY)", c.name(), show(*t), fee, gain));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P30
pub struct Rewards;
impl Check for Rewards {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        let Op::Rewards { tok, amount } = c.op else { return Ok(()) };
        if !c.out.ok {
            return Ok(());
        }
        let t = *tok;
        let (a, b) = (&c.pre.pools[&t], &c.post.pools[&t]);
        let (si, rev, sup) = split(a, &c.spec0.rates[&t], &b.bi);
        st.judge("reward shared", (t, bits(&bi(*amount)) / 2, bits(&sup) / 3, bits(&si) / 3));
        if b.bal.clone() - &a.bal != bi(*amount) {
            return bad("reward custody", format!("{} {}: market cash moved by {}", amount, show(t), b.bal.clone() - &a.bal));
        }
        if b.borrowed != a.borrowed {
            return bad("reward touched debt", show(t).to_string());
        }
        let tol_c = tol_claim(a, &si, &rev);
        if !near(&b.supplied, &sup, &tol_c) || !near(&b.revenue, &rev, &tol_c) {
            return bad("reward minted claims", format!("{}: claims {} → {} (expected {})", show(t), a.supplied, b.supplied, sup));
        }
        if sup.is_zero() {
            return Ok(());
        }
        // every claim gains in proportion: the index moves by amount / total claims
        let want = &si + div_round(&(up(&bi(*amount), t) * ray()), &b.supplied);
        let tol = (tol_si(a, &want) + tol_si(b, &want)) * BigInt::from(3) + BigInt::from(8);
        if !near(&b.si, &want, &tol) {
            return bad("reward share", format!("{} {} over {} claims: supply index {} → {}, expected {}", amount, show(t), sup, si, b.si, want));
        }
        for n in c.pre.accts.keys() {
            if scaled(c.pre, *n, t, false) != scaled(c.post, *n, t, false) {
                return bad("reward changed a claim", format!("account {}", n));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P32
pub struct Custody;
impl Check for Custody {
    fn probe(&mut self, w: &mut World, _s: &Snap, spec: &Spec, step: &Step, st: &mut Stats) -> R {
        super::served::served(super::served::Stage::Strategies, w, spec, step, st)
    }
    fn tx(&mut self, w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        let mut toks: Vec<u8> = c.post.pools.keys().cloned().collect();
        toks.push(JUNK);
        for t in &toks {
            let d = c.dbal(Who::Ctl, *t);
            if !d.is_zero() {
                return bad("tokens left in the controller", format!("{}: {} {}", c.name(), d, show(*t)));
            }
        }
        // nor does anything the protocol knows nothing about stay behind
        for who in [Who::Ctl].into_iter().chain(c.post.pools.keys().map(|t| Who::Pool(*t))) {
            if let Some(a) = w.who_addr(who) {
                if !w.ch.bal_n(&a, SFT.0, SFT.1).is_zero() {
                    return bad("tokens left in the controller", format!("{}: a semi-fungible token stays with {:?}", c.name(), who));
                }
            }
        }
        st.judge("controller empty", (c.name(), c.out.calls));
        let strat = matches!(c.op, Op::Multiply { .. } | Op::SwapDebt { .. } | Op::SwapColl { .. } | Op::RepayColl { .. });
        if !strat {
            return Ok(());
        }
        let n = subject(c.op, c.pre).unwrap();
        let net = |t: u8, b: bool| -> BigInt {
            let p = &c.post.pools[&t];
            let i = if b { &p.bi } else { &p.si };
            amt(&(scaled(c.post, n, t, b) - scaled(c.pre, n, t, b)), i)
        };
        // nothing but what the strategy names moves
        let (deps, debts): (Vec<u8>, Vec<u8>) = match c.op {
            Op::Multiply { collat, debt, .. } => (vec![*collat], vec![*debt]),
            Op::SwapDebt { old, new, .. } => (vec![], vec![*old, *new]),
            Op::SwapColl { cur, new, pays, .. } => ([*cur, *new].into_iter().chain(pays.iter().map(|p| p.0)).collect(), vec![]),
            Op::RepayColl { from, to, close, .. } => {
                let gone = c.post.accts.get(&n).map(|a| a.bor.is_empty()).unwrap_or(true);
                let mut d = vec![*from];
                if *close && gone {
                    d = toks.clone();
                }
                (d, vec![*to])
            }
            _ => (vec![], vec![]),
        };
        for t in c.post.pools.keys() {
            if !deps.contains(t) && scaled(c.post, n, *t, false) != scaled(c.pre, n, *t, false) {
                return bad("strategy moved another deposit", format!("{}: {}", c.name(), show(*t)));
            }
            if !debts.contains(t) && scaled(c.post, n, *t, true) != scaled(c.pre, n, *t, true) {
                return bad("strategy moved another debt", format!("{}: {}", c.name(), show(*t)));
            }
        }
        // tokens: what the account and its owner end up with is what the router gave minus what it took
        for t in c.post.pools.keys() {
            let gain = up(&c.dbal(Who::User(c.from), *t), *t) + net(*t, false) - net(*t, true);
            let fee = match c.op {
                Op::Multiply { debt, amount, .. } if debt == t => mul_div(*amount, c.spec0.acs[t].flash_fee as u128, 10_000),
                Op::SwapDebt { new, amount, .. } if new == t => mul_div(*amount, c.spec0.acs[t].flash_fee as u128, 10_000),
                _ => 0,
            };
            let want = -up(&c.dbal(Who::Router, *t), *t) - up(&bi(fee), *t);
            let p = &c.post.pools[t];
            let tol = unit(*t) * BigInt::from(4) + (&p.si + &p.bi) * BigInt::from(8) / ray() + BigInt::from(1000);
            st.judge("strategy value", (c.name(), *t, bits(&want) / 3, want.is_negative()));
            if !near(&gain, &want, &tol) {
                return bad(
                    "strategy value",
                    format!("{}: account and owner gained {} {} (RAY) but the swaps delivered {} net of fees", c.name(), gain, show(*t), want),
                );
            }
        }
        // claims are whole RAY units of the index
        let slack = |t: u8| &c.post.pools[&t].si * BigInt::from(4) / ray() + BigInt::from(4);
        match c.op {
            Op::Multiply { debt, amount, collat, .. } => {
                let d = net(*debt, true);
                let p = &c.post.pools[debt];
                if !near(&d, &up(&bi(*amount), *debt), &(&p.bi * BigInt::from(8) / ray() + BigInt::from(8))) {
                    return bad("strategy debt", format!("multiply of {} {} recorded debt {}", amount, show(*debt), d));
                }
                // the swapped proceeds are collateral, not a payout
                if *collat != *debt && c.dbal(Who::User(c.from), *collat).is_positive() {
                    return bad("strategy paid out", format!("{} {}", c.dbal(Who::User(c.from), *collat), show(*collat)));
                }
            }
            Op::SwapDebt { new, amount, old, .. } if new != old => {
                let d = net(*new, true);
                let p = &c.post.pools[new];
                // a payment in the new token may already reduce it
                if d > up(&bi(*amount), *new) + &p.bi * BigInt::from(8) / ray() + BigInt::from(8) {
                    return bad("strategy debt", format!("swap to {} {} recorded debt {}", amount, show(*new), d));
                }
            }
            Op::SwapColl { cur, amount, new, .. } if cur != new => {
                let d = -net(*cur, false);
                if d > up(&bi(*amount), *cur) + unit(*cur) + slack(*cur) {
                    return bad("strategy withdrew too much", format!("asked {} {}, took {} (RAY)", amount, show(*cur), d));
                }
            }
            Op::RepayColl { from, to, amount, close, .. } if from != to => {
                let gone = c.post.accts.get(&n).map(|a| a.bor.is_empty()).unwrap_or(true);
                let d = -net(*from, false);
                if !(*close && gone) && d > up(&bi(*amount), *from) + unit(*from) + slack(*from) {
                    return bad("strategy withdrew too much", format!("asked {} {}, took {} (RAY)", amount, show(*from), d));
                }
                let left = c.post.accts.get(&n).map(|a| a.dep.len()).unwrap_or(0);
                if *close && gone && left > 0 {
                    return bad("close left collateral", format!("account {} still holds {} deposits after closing", n, left));
                }
            }
            _ => {}
        }
        let _ = w;
        Ok(())
    }
}

// ------------------------------------------------------------------ P33
#[derive(Default)]
pub struct Exit {
    wiped: BTreeSet<u8>,
    txs: u64,
    /// largest size of each market so far (claims, debts and shares), RAY
    peak: BTreeMap<u8, BigInt>,
}
/// undo pauses and stale quotes, so that only protocol state can stop an exit
pub fn heal(w: &mut World, spec: &Spec) {
    let quorum = spec.agg.quorum.max(1) as usize;
    if spec.paused {
        w.exec(OWNER, &Op::UnpauseCtl, None);
    }
    if spec.agg.paused {
        w.exec(OWNER, &Op::AggUnpause, None);
    }
    let now = w.ch.now();
    let mut nodes: Vec<u8> = spec.agg.nodes.keys().cloned().collect();
    let missing: Vec<u8> = (0..w.cfg.nodes).filter(|n| !nodes.contains(n)).collect();
    if nodes.len() < quorum && !missing.is_empty() {
        w.exec(OWNER, &Op::AggAdd { nodes: missing.clone() }, None);
        nodes.extend(missing);
    }
    let px: Vec<u128> = FEEDS
        .iter()
        .map(|t| {
            let p = spec.agg.rounds.get(TOKS[*t as usize].tick).map(|r| r.price).unwrap_or(0);
            // an outlier that made it through: back to the market
            if p < 1_000_000_000 || p > WAD * 100_000_000 {
                w.cfg.px[*t as usize]
            } else {
                p
            }
        })
        .collect();
    // half-open rounds die first
    let round = w.ch.st().current_block_info.block_round;
    w.ch.set_time(now + 1801, round + 301);
    let now = w.ch.now();
    for n in nodes.iter().take(quorum) {
        let subs = FEEDS.iter().map(|t| (*t, now, px[*t as usize])).collect();
        w.exec(NODE0 + n, &Op::SubmitBatch { subs }, None);
    }
    let mut by = vec![0u128; NTOK];
    for (i, t) in FEEDS.iter().enumerate() {
        by[*t as usize] = px[i];
    }
    for t in DEXED {
        let (n, d) = fair_dex(&by, t);
        w.apply_dex(t, Some((n, d)));
        w.apply_pair_state(t, 1);
    }
    let mut rates = vec![WAD; NTOK];
    for (t, r) in w.env.rate.clone() {
        rates[t as usize] = r;
    }
    for t in [LPA, LPB] {
        w.apply_pair_state(t, 1);
        let (r0, r1, s) = fair_lp(&by, &rates, t);
        w.apply_lp(t, r0, r1, s);
    }
}
impl Check for Exit {
    fn tx(&mut self, _w: &mut World, c: &Ctx, _st: &mut Stats) -> R {
        self.txs += 1;
        for (t, p) in &c.post.pools {
            // (a share is worth si / 1e27 as well)
            let v = amt(&p.supplied, &p.si) + amt(&p.borrowed, &p.bi) + &p.supplied + &p.borrowed + &p.si + &p.bi;
            let m = self.peak.entry(*t).or_default();
            if *m < v {
                *m = v;
            }
        }
        if c.out.ok && matches!(c.op, Op::Clean { .. }) {
            for (t, p) in &c.post.pools {
                if p.si <= BigInt::from(1_000_000u32) {
                    self.wiped.insert(*t);
                }
            }
        }
        Ok(())
    }
    fn end(&mut self, w: &mut World, s: &Snap, spec: &Spec, st: &mut Stats) -> R {
        heal(w, spec);
        let _ = s;
        let s = w.snap();
        for t in s.pools.keys() {
            if w.px_egld(*t).is_none() {
                return Ok(());
            }
        }
        // everybody pays
        for a in s.accts.values() {
            if a.bor.is_empty() {
                continue;
            }
            let payer = a.owner.unwrap_or(OWNER);
            for (t, p) in &a.bor {
                let e = accrue(&s.pools[t], &spec.rates[t], s.now_ms);
                let d = down(&amt(&p.scaled, &e.bi), *t);
                let Some(d) = d.to_u128() else { continue };
                // any part of a debt can be paid off, whatever became of the asset's settings
                if d > 1 {
                    let part = d / 2;
                    if w.ch.bal(&user_addr(payer), tid(*t)) < bu(part) {
                        w.ch.mint(&user_addr(payer), tid(*t), &bu(part));
                    }
                    let o = w.exec(payer, &Op::Repay { nonce: a.nonce, pays: vec![(*t, part)] }, None);
                    st.judge("exit: repay a part", (*t, bits(&bi(d)) / 2, a.iso, a.emode, a.mode));
                    if !o.ok {
                        return bad("repayment refused", format!("account {} cannot repay {} of {} {}: {}", a.nonce, part, d, show(*t), o.msg));
                    }
                }
                let have = w.ch.bal(&user_addr(payer), tid(*t));
                let pay = d.saturating_add(d / 1000).saturating_add(10);
                if have < bu(pay) {
                    w.ch.mint(&user_addr(payer), tid(*t), &bu(pay));
                }
                let o = w.exec(payer, &Op::Repay { nonce: a.nonce, pays: vec![(*t, pay)] }, None);
                st.judge("exit: repay", (*t, bits(&bi(d)) / 2, a.iso, a.emode, a.mode));
                if !o.ok {
                    return bad("repayment refused", format!("account {} cannot repay {} {}: {}", a.nonce, d, show(*t), o.msg));
                }
                if w.positions(a.nonce, 2).contains_key(t) {
                    return bad("debt cannot be closed", format!("account {} paid {} for a debt of {} {}", a.nonce, pay, d, show(*t)));
                }
            }
        }
        let s = w.snap();
        for (t, p) in &s.pools {
            if !p.borrowed.is_zero() {
                return bad("debt without a debtor", format!("{} {}", show(*t), p.borrowed));
            }
        }
        // rounding dust: a market may be a few smallest units short over its whole history (an
        // index is a multiple of 1e-27, so one step of it is worth the market's size / 1e27)
        let short_of = |t: u8| -> BigInt {
            let p = self.peak.get(&t).cloned().unwrap_or_default();
            BigInt::from(self.txs + 5) * (BigInt::from(1) + p * BigInt::from(4) / ray() / unit(t))
        };
        // everybody leaves
        let mut left: BTreeMap<u8, BigInt> = s.pools.iter().map(|(t, p)| (*t, p.bal.clone())).collect();
        for a in s.accts.values() {
            let Some(o) = a.owner else { continue };
            for (t, p) in &a.dep {
                if self.wiped.contains(t) {
                    continue;
                }
                let owed = down(&amt(&p.scaled, &s.pools[t].si), *t);
                let Some(full) = owed.to_u128() else { continue };
                if full == 0 {
                    continue;
                }
                let before = BigInt::from(w.ch.bal(&user_addr(o), tid(*t)));
                let mut r = w.exec(o, &Op::Withdraw { nft: a.nonce, w: vec![(*t, full)] }, None);
                if !r.ok && r.msg.contains("Insufficient liquidity") {
                    let short = short_of(*t).to_u128().unwrap_or(u128::MAX);
                    if full > short {
                        r = w.exec(o, &Op::Withdraw { nft: a.nonce, w: vec![(*t, full - short)] }, None);
                    } else {
                        continue;
                    }
                }
                st.judge("exit: withdraw", (*t, bits(&owed) / 2, a.iso, a.emode, a.mode));
                if !r.ok {
                    return bad(
                        "withdrawal refused",
                        format!("with every debt repaid, account {} cannot withdraw {} {} (cash {}): {}", a.nonce, owed, show(*t), left[t], r.msg),
                    );
                }
                let got = BigInt::from(w.ch.bal(&user_addr(o), tid(*t))) - before;
                *left.get_mut(t).unwrap() -= &got;
            }
        }
        // and the treasury
        for (t, p) in &s.pools {
            if self.wiped.contains(t) {
                continue;
            }
            let acc = w.who_addr(Who::Acc).unwrap();
            let before = BigInt::from(w.ch.bal(&acc, tid(*t)));
            let o = w.exec(OWNER, &Op::Claim { toks: vec![*t] }, None);
            if !o.ok {
                return bad("claim refused", format!("{}: {}", show(*t), o.msg));
            }
            let got = BigInt::from(w.ch.bal(&acc, tid(*t))) - before;
            let owed = down(&amt(&p.revenue, &p.si), *t);
            st.judge("exit: treasury", (*t, bits(&p.revenue) / 3));
            if got < &owed - short_of(*t) - BigInt::from(s.accts.len() as u64) {
                return bad("treasury stranded", format!("{}: owed {}, only {} was left for it", show(*t), owed, got));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ P35
pub struct Frame;
impl Check for Frame {
    fn tx(&mut self, _w: &mut World, c: &Ctx, st: &mut Stats) -> R {
        if !c.out.ok {
            return Ok(());
        }
        let mut may: BTreeSet<u64> = subject(c.op, c.pre).into_iter().collect();
        match c.op {
            Op::UpdThreshold { nonces, .. } => may.extend(nonces.iter().cloned()),
            Op::MoveNft { nft, .. } => {
                may.insert(*nft);
            }
            _ => {}
        }
        st.judge("bystanders", (c.name(), c.pre.accts.len(), c.pre.accts.values().map(|a| a.dep.len() + a.bor.len()).sum::<usize>()));
        for (n, a) in &c.pre.accts {
            if may.contains(n) {
                continue;
            }
            match c.post.accts.get(n) {
                Some(b) if a == b => {}
                other => {
                    return bad("bystander account changed", format!("{} changed account {}: {:?} → {:?}", c.name(), n, a, other));
                }
            }
        }
        for n in c.post.accts.keys() {
            if !c.pre.accts.contains_key(n) && !may.contains(n) {
                return bad("account appeared", format!("{}: {}", c.name(), n));
            }
        }
        for ((who, t), v) in &c.post.bals {
            if let Who::User(u) = who {
                if *u != c.from {
                    let v0 = c.pre.bals.get(&(*who, *t)).cloned().unwrap_or_default();
                    if *v != v0 && !matches!(c.op, Op::MoveNft { .. }) {
                        return bad("bystander balance changed", format!("{} by {} moved user {}'s {} by {}", c.name(), c.from, u, show(*t), v - v0));
                    }
                }
            }
        }
        // the account's own terms are not rewritten by using it
        if let Some(n) = subject(c.op, c.pre) {
            if let (Some(a), Some(b)) = (c.pre.accts.get(&n), c.post.accts.get(&n)) {
                if (a.iso, a.emode, a.mode, a.iso_tok, a.owner) != (b.iso, b.emode, b.mode, b.iso_tok, b.owner) {
                    return bad("account terms changed", format!("{} on account {}: {:?} → {:?}", c.name(), n, (a.iso, a.emode, a.mode, a.iso_tok, a.owner), (b.iso, b.emode, b.mode, b.iso_tok, b.owner)));
                }
            }
        }
        Ok(())
    }
}
