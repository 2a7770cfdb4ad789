//! Independent reference arithmetic: what the protocol's documentation says the numbers must be.
//! Written against exact integers with far more digits than the contracts use.
use crate::types::*;
use crate::world::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;

pub fn ray() -> BigInt {
    bi(RAY)
}
pub fn wad() -> BigInt {
    bi(WAD)
}
pub fn p10(n: u32) -> BigInt {
    BigInt::from(10u32).pow(n)
}
pub const YEAR_MS: u64 = 31_556_926_000;
/// working precision of the reference (decimal digits)
const Q: u32 = 50;
pub fn q1() -> BigInt {
    p10(Q)
}

pub fn div_round(a: &BigInt, b: &BigInt) -> BigInt {
    // round half away from zero
    if b.is_zero() {
        return BigInt::zero();
    }
    let two = BigInt::from(2u8);
    let s = if (a.is_negative()) != (b.is_negative()) { -BigInt::one() } else { BigInt::one() };
    let (aa, bb) = (a.abs(), b.abs());
    s * ((&aa * &two + &bb) / (&bb * &two))
}

/// token raw units -> RAY-precision token amount
pub fn up(raw: &BigInt, t: u8) -> BigInt {
    raw * p10(27 - tdec(t))
}
/// size of one smallest unit of t at RAY precision
pub fn unit(t: u8) -> BigInt {
    p10(27 - tdec(t))
}
/// RAY-precision token amount -> raw units, nearest
pub fn down(r: &BigInt, t: u8) -> BigInt {
    div_round(r, &unit(t))
}

/// utilisation at precision Q
pub fn util_q(p: &PoolSnap) -> BigInt {
    let s = &p.supplied * &p.si;
    // (claims worth nothing, after a total write-off, lend nothing)
    if s.is_zero() || amt(&p.supplied, &p.si).is_zero() {
        return BigInt::zero();
    }
    (&p.borrowed * &p.bi * q1()) / s
}

/// annual borrow rate at precision Q
pub fn annual_q(r: &RateCfg, util: &BigInt) -> BigInt {
    let k = p10(Q - 27);
    let q = q1();
    let (mid, opt) = (bi(r.mid) * &k, bi(r.opt) * &k);
    let (base, s1, s2, s3, max) = (bi(r.base) * &k, bi(r.s1) * &k, bi(r.s2) * &k, bi(r.s3) * &k, bi(r.max) * &k);
    let v = if *util < mid {
        &base + util * &s1 / &mid
    } else if *util < opt {
        &base + &s1 + (util - &mid) * &s2 / (&opt - &mid)
    } else {
        &base + &s1 + &s2 + (util - &opt) * &s3 / (&q - &opt)
    };
    if v > max {
        max
    } else {
        v
    }
}

/// growth factor (Q) of a debt over dt ms at annual rate (Q): e^x to the 5th order
pub fn growth_q(rate: &BigInt, dt_ms: u64) -> BigInt {
    let q = q1();
    let x = rate * BigInt::from(dt_ms) / BigInt::from(YEAR_MS);
    let mut term = q.clone();
    let mut sum = q.clone();
    for i in 1..=5u32 {
        term = &term * &x / &q / BigInt::from(i);
        sum += &term;
    }
    sum
}

#[derive(Clone, Debug)]
pub struct Accrued {
    pub bi: BigInt,
    pub si: BigInt,
    pub revenue: BigInt,
    pub supplied: BigInt,
    pub borrowed: BigInt,
    pub dt: u64,
    /// tolerance on bi (RAY units)
    pub tol_bi: BigInt,
}

/// The market as it should stand at `now_ms` before any operation touches it.
pub fn accrue(p: &PoolSnap, r: &RateCfg, now_ms: u64) -> Accrued {
    let dt = now_ms.saturating_sub(p.last);
    if dt == 0 {
        return Accrued {
            bi: p.bi.clone(),
            si: p.si.clone(),
            revenue: p.revenue.clone(),
            supplied: p.supplied.clone(),
            borrowed: p.borrowed.clone(),
            dt: 0,
            tol_bi: BigInt::zero(),
        };
    }
    let u = util_q(p);
    let rate = annual_q(r, &u);
    let g = growth_q(&rate, dt);
    let nbi = div_round(&(&p.bi * &g), &q1());
    // the protocol keeps its per-millisecond rate at RAY precision: x may be off by dt units
    let tol_bi: BigInt = (&p.bi * (BigInt::from(dt) * 2 + 200) * &g) / ray() / q1() + 4;
    // and the totals behind utilisation at RAY precision: matters for markets of a few units
    let (sv, bv) = (amt(&p.supplied, &p.si), amt(&p.borrowed, &p.bi));
    let tol_bi = if sv.is_zero() || bv.is_zero() {
        tol_bi
    } else {
        let du = &u / &sv + &u / &bv + p10(Q - 27);
        let lo = annual_q(r, &if u > du { &u - &du } else { BigInt::zero() });
        let hi = annual_q(r, &(&u + &du));
        let dr = (hi - lo).abs();
        tol_bi + &p.bi * dr * BigInt::from(dt) / BigInt::from(YEAR_MS) / q1() * &g / q1() * 2
    };
    let (si, revenue, supplied) = split(p, r, &nbi);
    Accrued { bi: nbi, si, revenue, supplied, borrowed: p.borrowed.clone(), dt, tol_bi }
}

/// Given the new borrow index, how interest is divided: (supply index, treasury claim, total claims)
pub fn split(p: &PoolSnap, r: &RateCfg, nbi: &BigInt) -> (BigInt, BigInt, BigInt) {
    let interest = div_round(&(&p.borrowed * (nbi - &p.bi)), &ray());
    let fee = div_round(&(&interest * BigInt::from(r.rf)), &BigInt::from(10_000));
    let rewards = &interest - &fee;
    let si = if p.supplied.is_zero() {
        p.si.clone()
    } else {
        &p.si + div_round(&(&rewards * ray()), &p.supplied)
    };
    let fs = div_round(&(&fee * ray()), &si);
    (si, &p.revenue + &fs, &p.supplied + &fs)
}

/// how far the supply index may be from the exact share, given the precision of its parts
pub fn tol_si(a: &PoolSnap, si1: &BigInt) -> BigInt {
    let one = BigInt::from(4);
    if a.supplied.is_zero() {
        return BigInt::zero();
    }
    let t = amt(&a.supplied, &a.si);
    let d = (si1 - &a.si).abs();
    ray() * &one / &a.supplied + si1 * &one / ray() + &one + if t.is_zero() { d } else { d * &one / t }
}

/// ... and the treasury's claim, bought at that index
pub fn tol_claim(a: &PoolSnap, si1: &BigInt, rev1: &BigInt) -> BigInt {
    let fs = (rev1 - &a.revenue).abs();
    let m = if si1.is_zero() { ray() } else { si1.clone() };
    ray() * BigInt::from(8) / &m + fs * tol_si(a, si1) * BigInt::from(2) / m + BigInt::from(8)
}

pub fn accrue_all(s: &Snap, rates: &BTreeMap<u8, RateCfg>, now_ms: u64) -> BTreeMap<u8, Accrued> {
    s.pools.iter().map(|(t, p)| (*t, accrue(p, &rates[t], now_ms))).collect()
}

/// RAY-precision amount of a position
pub fn amt(scaled: &BigInt, idx: &BigInt) -> BigInt {
    div_round(&(scaled * idx), &ray())
}

#[derive(Clone, Debug, Default)]
pub struct Risk {
    pub coll: BigInt,
    pub weighted: BigInt,
    pub ltv: BigInt,
    pub debt: BigInt,
    /// collateral-weighted base bonus × coll
    pub bonus_w: BigInt,
}
impl Risk {
    pub fn hf(&self) -> f64 {
        if self.debt.is_zero() {
            return 2.0;
        }
        ratio(&self.weighted, &self.debt)
    }
}
pub fn ratio(a: &BigInt, b: &BigInt) -> f64 {
    if b.is_zero() {
        return f64::INFINITY;
    }
    let q: BigInt = a * p10(18) / b;
    q.to_f64().unwrap_or(f64::MAX) / 1e18
}
pub fn f(a: &BigInt) -> f64 {
    a.to_f64().unwrap_or(f64::MAX)
}

/// EGLD values (RAY precision) of an account at accrued indexes and given prices (WAD)
pub fn risk(a: &Acct, acc: &BTreeMap<u8, Accrued>, px: &BTreeMap<u8, BigInt>) -> Option<Risk> {
    let mut r = Risk::default();
    let bps = BigInt::from(10_000);
    for (t, p) in &a.dep {
        let v = amt(&p.scaled, &acc.get(t)?.si) * px.get(t)? / wad();
        r.weighted += &v * &p.lt / &bps;
        r.ltv += &v * std::cmp::min(&p.ltv, &p.lt) / &bps;
        r.bonus_w += &v * &p.bonus / &bps;
        r.coll += v;
    }
    for (t, p) in &a.bor {
        let v = amt(&p.scaled, &acc.get(t)?.bi) * px.get(t)? / wad();
        r.debt += v;
    }
    Some(r)
}

/// indexes as stored (for states where the touched pools are already accrued)
pub fn stored(s: &Snap) -> BTreeMap<u8, Accrued> {
    s.pools
        .iter()
        .map(|(t, p)| {
            (
                *t,
                Accrued {
                    bi: p.bi.clone(),
                    si: p.si.clone(),
                    revenue: p.revenue.clone(),
                    supplied: p.supplied.clone(),
                    borrowed: p.borrowed.clone(),
                    dt: 0,
                    tol_bi: BigInt::zero(),
                },
            )
        })
        .collect()
}

/// |a-b| <= tol
pub fn near(a: &BigInt, b: &BigInt, tol: &BigInt) -> bool {
    (a - b).abs() <= *tol
}
/// relative comparison with absolute floor
pub fn near_rel(a: &BigInt, b: &BigInt, rel_inv: u64, abs: u64) -> bool {
    let m = if a.abs() > b.abs() { a.abs() } else { b.abs() };
    (a - b).abs() <= m / BigInt::from(rel_inv) + BigInt::from(abs)
}

/// Liquidation as documented (floating point; callers stay away from branch boundaries).
#[derive(Clone, Debug)]
pub struct LiqRef {
    /// debt value (EGLD) the protocol is willing to take at most
    pub max_repay: f64,
    pub bonus: f64,
    /// too close to a branch boundary to judge
    pub fuzzy: bool,
}
pub fn liq_ref(r: &Risk) -> LiqRef {
    let hf = r.hf();
    let coll = f(&r.coll);
    let debt = f(&r.debt);
    let weighted = f(&r.weighted);
    if coll <= 0.0 {
        return LiqRef { max_repay: 0.0, bonus: 0.0, fuzzy: true };
    }
    let prop = weighted / coll;
    let base = (f(&r.bonus_w) / coll).min(0.15);
    let mut fuzzy = false;
    let detail = |bonus: f64, target: f64, fuzzy: &mut bool| -> (f64, f64) {
        let d_max = coll / (1.0 + bonus);
        let den = target - prop * (1.0 + bonus);
        if den.abs() < 1e-9 {
            *fuzzy = true;
        }
        let d_ideal = (target * debt - weighted) / den;
        let d = if d_ideal < 0.0 { d_max } else { d_ideal.min(d_max) };
        let d = d.min(debt);
        let seized_w = (prop * d * (1.0 + bonus)).min(weighted);
        let nd = debt - d;
        let nhf = if nd <= debt * 1e-15 { 2.0 } else { (weighted - seized_w) / nd };
        (d, nhf)
    };
    let lin = |target: f64| -> f64 {
        let gap = (target - hf) / target;
        let term = (2.0 * gap).min(1.0);
        base + (0.15 - base) * term
    };
    let b1 = lin(1.02);
    let (d1, h1) = detail(b1, 1.02, &mut fuzzy);
    if (h1 - 1.0).abs() < 1e-9 {
        fuzzy = true;
    }
    if h1 >= 1.0 {
        return LiqRef { max_repay: d1, bonus: b1, fuzzy };
    }
    let b2 = lin(1.01);
    let (d2, _) = detail(b2, 1.01, &mut fuzzy);
    let (_, hb) = detail(base, 1.0, &mut fuzzy);
    // (a base bonus that heals the account to one, give or take, leaves it better off than it was)
    if (hb - hf).abs() < 1e-9 {
        fuzzy = true;
    }
    if hb < 1.0 && hb < hf {
        return LiqRef { max_repay: (coll / (1.0 + base)).min(debt), bonus: base, fuzzy };
    }
    LiqRef { max_repay: d2, bonus: b2, fuzzy }
}
