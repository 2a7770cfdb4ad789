//! What a user may take for granted: on a copy of the state in which prices are sound, nothing
//! is paused and the markets involved have plain settings, an ordinary operation goes through.
//! And what an administrator may: a newly configured counterparty is the one used from then on.
use super::money::heal;
use super::*;
use crate::chain::*;
use crate::enc;
use num_traits::{One, ToPrimitive};

#[derive(Clone, Copy, PartialEq)]
pub enum Stage {
    Deposits,
    Loans,
    Strategies,
    Wiring,
}
fn plain() -> AssetCfg {
    AssetCfg {
        ltv: 7500,
        lt: 8000,
        bonus: 500,
        fee: 1000,
        collat: true,
        borrow: true,
        isolated: false,
        ceiling: 0,
        siloed: false,
        flash: true,
        flash_fee: 50,
        iso_borrow: false,
        borrow_cap: 0,
        supply_cap: 0,
    }
}
struct Run<'a> {
    w: &'a mut World,
    st: &'a mut Stats,
    own: Stage,
    seed: u64,
    key: (u8, u8, u8, u8),
    done: bool,
}
impl Run<'_> {
    /// raw amount worth this many dollars (0: not expressible)
    fn usd(&mut self, t: u8, d: u64) -> u128 {
        let Some(p) = self.w.px_usd(t) else { return 0 };
        if p < BigInt::one() {
            return 0;
        }
        let a = BigInt::from(d) * wad() * p10(tdec(t)) / p;
        if a < BigInt::from(2000) {
            return 0;
        }
        a.to_u128().unwrap_or(0)
    }
    /// true: went through; a refusal is a violation in the stage the property is about
    fn go(&mut self, stage: Stage, from: u8, what: &'static str, op: Op) -> Result<bool, Viol> {
        if self.done {
            return Ok(false);
        }
        let o = self.w.exec(from, &op, None);
        if stage == self.own {
            self.st.judge(what, (self.key, self.seed % 4));
            if !o.ok {
                return bad("ordinary operation refused", format!("{}: {:?}: {}", what, op, o.msg));
            }
        }
        if !o.ok {
            self.done = true;
        }
        Ok(o.ok)
    }
    fn bal(&self, who: &crate::chain::Addr, t: u8) -> BigInt {
        BigInt::from(self.w.ch.bal(who, tid(t)))
    }
}

pub fn served(own: Stage, w: &mut World, spec: &Spec, step: &Step, st: &mut Stats) -> R {
    let Step::Probe { from, extra, .. } = step else { return Ok(()) };
    heal(w, spec);
    let s = w.snap();
    let mut toks: Vec<u8> = vec![];
    for (t, p) in &s.pools {
        // a market wiped by a write-off, or blown up by centuries of interest, is not ordinary
        let small = BigInt::from(1000u32);
        if p.si < ray() / &small || p.si > ray() * &small || p.bi > ray() * &small {
            continue;
        }
        let e = accrue(p, &spec.rates[t], s.now_ms);
        let Some(px) = w.px_usd(*t) else { continue };
        // (one UTK is quoted in whole millionths of a USDC)
        if e.si > ray() * &small || e.bi > ray() * &small || (*t == UTK && px < wad() / BigInt::from(100)) {
            continue;
        }
        toks.push(*t);
    }
    if toks.len() < 4 {
        return Ok(());
    }
    let mut rng = Rng::new(*extra);
    let mut pick = || toks.remove(rng.below(toks.len() as u64) as usize);
    let (x, y, z, v) = (pick(), pick(), pick(), pick());
    let user = *from;
    let lender = if user == 1 { 2 } else { 1 };
    let mut r = Run { w, st, own, seed: *extra, key: (x, y, z, v), done: false };
    for t in [x, y, z, v] {
        if spec.acs.get(&t).map(|a| *a != plain()).unwrap_or(true) {
            r.w.exec(OWNER, &Op::EditAsset { tok: t, ac: plain() }, None);
        }
    }
    r.w.exec(OWNER, &Op::Limits { borrow: 10, supply: 10 }, None);
    let big: Vec<u128> = [x, y, z, v].iter().map(|t| r.usd(*t, 5_000)).collect();
    // (a market's existing utilisation decides how much of its cash is free: the lender brings enough)
    if big.iter().any(|a| *a == 0) {
        return Ok(());
    }
    for (t, a) in [x, y, z, v].iter().zip(&big) {
        for u in [user, lender] {
            r.w.ch.mint(&user_addr(u), tid(*t), &bu(*a * 4));
        }
    }
    let m: [u128; 4] = [x, y, z, v].map(|t| r.usd(t, 100));
    if m.iter().any(|a| *a == 0) {
        return Ok(());
    }
    let (mx, my, mz, mv) = (m[0], m[1], m[2], m[3]);
    let pays: Vec<(u8, u128)> = [x, y, z, v].iter().cloned().zip(big.iter().cloned()).collect();
    r.go(Stage::Deposits, lender, "ordinary deposit", Op::Supply { nft: None, to: None, emode: None, pays })?;
    r.go(Stage::Deposits, user, "ordinary deposit", Op::Supply { nft: None, to: None, emode: None, pays: vec![(x, mx * 10)] })?;
    let nft = s.last_nonce + 2;
    r.go(Stage::Deposits, user, "deposit into an account", Op::Supply { nft: Some(nft), to: None, emode: None, pays: vec![(x, mx)] })?;
    r.go(Stage::Deposits, user, "ordinary withdrawal", Op::Withdraw { nft, w: vec![(x, mx / 2)] })?;
    r.go(Stage::Loans, user, "ordinary loan", Op::Borrow { nft, b: vec![(y, my * 2)] })?;
    r.go(Stage::Deposits, user, "withdrawal with debt", Op::Withdraw { nft, w: vec![(x, mx / 4)] })?;
    r.go(Stage::Loans, user, "ordinary repayment", Op::Repay { nonce: nft, pays: vec![(y, my / 5)] })?;
    r.go(Stage::Loans, lender, "repayment by another", Op::Repay { nonce: nft, pays: vec![(y, my / 5)] })?;
    if own == Stage::Deposits || own == Stage::Loans {
        if own == Stage::Loans {
            r.go(Stage::Loans, user, "second loan", Op::Borrow { nft, b: vec![(v, mv), (y, my / 10)] })?;
            r.go(Stage::Loans, user, "repayment in full", Op::Repay { nonce: nft, pays: vec![(y, my * 4), (v, mv * 2)] })?;
            r.go(Stage::Loans, user, "loan after repayment", Op::Borrow { nft, b: vec![(z, mz)] })?;
        }
        // all the cash of a market can be lent, and the last of it withdrawn
        let cash = r.w.pool_snap(y).bal.clone();
        let (Some(py), Some(pz)) = (r.w.px_usd(y), r.w.px_usd(z)) else { return Ok(()) };
        let cover = (&cash * &py * p10(tdec(z)) * BigInt::from(3) / (p10(tdec(y)) * pz)).to_u128().unwrap_or(0);
        let Some(cash) = cash.to_u128() else { return Ok(()) };
        if r.done || cover < 2000 || cover > 1 << 110 {
            return Ok(());
        }
        r.w.ch.mint(&user_addr(user), tid(z), &bu(cover));
        if !r.go(Stage::Wiring, user, "cover", Op::Supply { nft: None, to: None, emode: None, pays: vec![(z, cover)] })? {
            return Ok(());
        }
        let left = (own == Stage::Deposits) as u128;
        r.go(Stage::Loans, user, "loan of all the cash", Op::Borrow { nft: nft + 1, b: vec![(y, cash - left)] })?;
        if own == Stage::Deposits {
            r.go(Stage::Deposits, user, "deposit into a dry market", Op::Supply { nft: Some(nft), to: None, emode: None, pays: vec![(y, my)] })?;
            r.go(Stage::Deposits, lender, "withdrawal of all the cash", Op::Withdraw { nft: nft - 1, w: vec![(y, my + left)] })?;
        }
        return Ok(());
    }
    if own == Stage::Strategies {
        let send = |t: u8, a: u128| vec![Act::Send(vec![(t, a)])];
        r.go(own, user, "debt swap", Op::SwapDebt { nft, old: y, amount: mv, new: v, steps: send(y, my * 95 / 100), pays: vec![] })?;
        r.go(own, user, "collateral swap", Op::SwapColl { nft, cur: x, amount: mx * 3, new: z, steps: send(z, mz * 29 / 10), pays: vec![] })?;
        r.go(
            own,
            user,
            "repayment with collateral",
            Op::RepayColl { nft, from: z, amount: mz / 2, to: v, close: false, steps: Some(send(v, mv * 4 / 10)) },
        )?;
        r.go(
            own,
            user,
            "repayment with collateral",
            Op::RepayColl { nft, from: z, amount: mz, to: v, close: false, steps: Some(send(v, mv * 9 / 10)) },
        )?;
        r.go(
            own,
            user,
            "closing repayment",
            Op::RepayColl { nft, from: x, amount: mx, to: y, close: true, steps: Some(send(y, my * 99 / 100)) },
        )?;
        if !r.done && (r.w.nft_holder(nft).is_some() || r.w.account_nonces().contains(&nft)) {
            return bad("account not closed", format!("account {} repaid everything with collateral, asked to close, and is still there", nft));
        }
        let mode = 2 + (extra >> 20) as u8 % 3;
        let mul = |nft, pays, steps, steps_pay| Op::Multiply { nft, emode: 0, collat: z, amount: my, debt: y, mode, pays, steps, steps_pay };
        let buy = Some(send(z, mz * 95 / 100));
        r.go(own, user, "leverage", mul(None, vec![(z, mz)], buy.clone(), None))?;
        r.go(own, user, "leverage paid in the debt token", mul(None, vec![(y, my)], Some(send(z, mz * 19 / 10)), None))?;
        r.go(own, user, "leverage paid in a third token", mul(None, vec![(v, mv)], buy.clone(), Some(send(z, mz * 98 / 100))))?;
        r.go(own, user, "leverage again", mul(Some(nft + 3), vec![], buy, None))?;
        return Ok(());
    }
    if r.done {
        return Ok(());
    }
    // the counterparties of the deployment are replaced one after another
    let owner = r.w.owner.clone();
    let ctl = r.w.ctl.clone();
    let set = |r: &mut Run, f: &str, a: &crate::chain::Addr, sc: bool| -> R {
        let o = r.w.ch.call(&owner, &ctl, f, vec![enc::a(a)], &[], None);
        r.st.judge(if sc { "counterparty replaced" } else { "counterparty must be a contract" }, (f.to_string(), r.seed % 4));
        if o.ok != sc {
            return bad(
                if sc { "valid configuration refused" } else { "invalid configuration accepted" },
                format!("{} to {}: {}", f, if sc { "a contract" } else { "no contract" }, o.msg),
            );
        }
        Ok(())
    };
    let zero = crate::chain::Addr::zero();
    for f in ["setSwapRouter", "setAccumulator", "setSafePriceView", "setAggregator", "setLiquidityPoolTemplate"] {
        set(&mut r, f, &user_addr(1), false)?;
        set(&mut r, f, &zero, false)?;
    }
    // the treasury's recipient
    let (acc0, acc1) = (r.w.acc.clone(), addr_sc(K_ACC, 1));
    r.w.ch.add_sc(&acc1, "acc", &owner);
    set(&mut r, "setAccumulator", &acc1, true)?;
    let (now, round) = (r.w.ch.now(), r.w.ch.st().current_block_info.block_round);
    r.w.ch.set_time(now + 30, round + 5);
    let (a0, a1) = (r.bal(&acc0, y), r.bal(&acc1, y));
    let before = r.w.pool_snap(y);
    let o = r.w.exec(OWNER, &Op::Claim { toks: vec![y] }, None);
    let paid = &before.bal - &r.w.pool_snap(y).bal;
    if o.ok && (r.bal(&acc0, y) != a0 || r.bal(&acc1, y) - a1 != paid) {
        return bad("replaced recipient still used", format!("claim of {} {} after the recipient changed", paid, show(y)));
    }
    // the swap venue
    let (ro0, ro1) = (r.w.router.clone(), addr_sc(K_ROUTER, 1));
    r.w.ch.add_sc(&ro1, "router", &owner);
    r.w.ch.mint(&ro1, tid(z), &bu(mz * 10));
    set(&mut r, "setSwapRouter", &ro1, true)?;
    let (b0, b1) = (r.bal(&ro0, x), r.bal(&ro1, x));
    let o = r.w.exec(user, &Op::SwapColl { nft, cur: x, amount: mx * 2, new: z, steps: vec![Act::Send(vec![(z, mz * 19 / 10)])], pays: vec![] }, None);
    if r.bal(&ro0, x) != b0 || (o.ok && r.bal(&ro1, x) == b1) {
        return bad("replaced swap venue still used", format!("{}: {} {}", o.ok, o.msg, show(x)));
    }
    // the pool code
    let t1 = addr_sc(K_POOL, 254);
    r.w.ch.add_sc(&t1, "pool2", &owner);
    set(&mut r, "setLiquidityPoolTemplate", &t1, true)?;
    let o = r.w.exec(OWNER, &Op::UpgradePool { tok: y }, None);
    let pool = r.w.pools[&y].clone();
    let code = r.w.ch.st().accounts.get(&pool).and_then(|a| a.contract_path.clone()).unwrap_or_default();
    if o.ok && code != b"pool2" {
        return bad("replaced template still used", format!("the upgraded market runs {}", String::from_utf8_lossy(&code)));
    }
    // oracles of known tokens cannot be overwritten
    let pair = r.w.pairs[&WEGLD].clone();
    let o = r.w.ch.call(
        &owner,
        &ctl,
        "setTokenOracle",
        vec![enc::s(tid(y)), enc::u(tdec(y) as u64), enc::a(&pair), enc::u(3), enc::u(1), enc::u(1), enc::u(200), enc::u(500), enc::u(900)],
        &[],
        None,
    );
    if o.ok {
        return bad("invalid configuration accepted", format!("the oracle of {} was overwritten", show(y)));
    }
    // the price feed
    let g1 = addr_sc(K_AGG, 1);
    r.w.ch.add_sc(&g1, "agg", &owner);
    r.w.ch.call(&owner, &g1, "init", vec![enc::u(1), enc::a(&user_addr(NODE0))], &[], None);
    r.w.ch.call(&owner, &g1, "unpause", vec![], &[], None);
    let now = r.w.ch.now();
    let p0 = r.w.px_usd(WEGLD);
    let mut args = vec![];
    for t in FEEDS {
        args.extend([enc::s(TOKS[t as usize].tick), enc::s("USD"), enc::u(now), enc::big(&bu(WAD * 77))]);
    }
    let o = r.w.ch.call(&user_addr(NODE0), &g1, "submitBatch", args, &[], None);
    set(&mut r, "setAggregator", &g1, true)?;
    let p1 = r.w.px_usd(WEGLD);
    if o.ok && p1 != Some(bi(WAD * 77)) {
        return bad("replaced price feed still used", format!("EGLD at {:?} before, {:?} after", p0, p1));
    }
    // its committee: a quorum from one up to all nodes, never above fifty
    let node = |i: u64| enc::a(&user_addr(NODE0 + i as u8));
    let n = 2 + r.seed % 4;
    let mut agg = |r: &mut Run, f: &str, args: Vec<Vec<u8>>, valid: bool| -> R {
        let o = r.w.ch.call(&owner, &g1, f, args.clone(), &[], None);
        r.st.judge(if valid { "committee changed" } else { "invalid committee refused" }, (f.to_string(), args.len(), n));
        if o.ok != valid {
            return bad(
                if valid { "valid configuration refused" } else { "invalid configuration accepted" },
                format!("{} of {} {:?}: {}", f, n, args.first().map(|a| enc::to_u64(a)), o.msg),
            );
        }
        Ok(())
    };
    agg(&mut r, "addOracles", (0..n).map(node).collect(), true)?;
    agg(&mut r, "setSubmissionCount", vec![enc::u(n)], true)?;
    agg(&mut r, "setSubmissionCount", vec![enc::u(n + 1)], false)?;
    agg(&mut r, "setSubmissionCount", vec![enc::u(0)], false)?;
    agg(&mut r, "setSubmissionCount", vec![enc::u(1)], true)?;
    agg(&mut r, "addOracles", (0..52).map(node).collect(), true)?;
    agg(&mut r, "setSubmissionCount", vec![enc::u(50)], true)?;
    agg(&mut r, "setSubmissionCount", vec![enc::u(51)], false)?;
    let gone = |count: u64, k: u64| std::iter::once(enc::u(count)).chain((k..52).map(node)).collect::<Vec<_>>();
    agg(&mut r, "removeOracles", gone(n + 1, n), false)?;
    agg(&mut r, "removeOracles", gone(0, n), false)?;
    agg(&mut r, "removeOracles", gone(n, n), true)?;
    // oracles of new tokens: tolerances within their ranges, and a pair where the source needs one
    let at = r.w.pairs[&UTK].clone();
    let id = "FRESH-0123ab";
    let mut oracle = |r: &mut Run, src: u64, first: u64, last: u64, pair_id: Option<u64>, valid: bool| -> R {
        let mut args =
            vec![enc::s(id), enc::u(9), enc::a(&at), enc::u(1), enc::u(1), enc::u(src), enc::u(first), enc::u(last), enc::u(900)];
        args.extend(pair_id.map(enc::u));
        let o = r.w.ch.call(&owner, &ctl, "setTokenOracle", args, &[], None);
        r.st.judge(if valid { "oracle of a new token" } else { "invalid oracle refused" }, (src, first, last, pair_id));
        if o.ok != valid {
            return bad(
                if valid { "valid configuration refused" } else { "invalid configuration accepted" },
                format!("oracle with source {}, tolerances {} and {}, pair {:?}: {}", src, first, last, pair_id, o.msg),
            );
        }
        Ok(())
    };
    for (src, first, last, pid) in
        [(1, 49, 500, None), (1, 5001, 6000, None), (1, 50, 149, None), (1, 50, 10_001, None), (1, 400, 399, None), (5, 200, 500, None), (5, 200, 500, Some(0)), (0, 200, 500, None), (6, 200, 500, None)]
    {
        oracle(&mut r, src, first, last, pid, false)?;
    }
    let (src, first, last, pid) = *[(1, 50, 150, None), (1, 5000, 10_000, None), (5, 5000, 5000, Some(7)), (5, 150, 150, Some(1))]
        .get((r.seed >> 8) as usize % 4)
        .unwrap();
    oracle(&mut r, src, first, last, pid, true)?;
    oracle(&mut r, src, first, last, pid, false)?;
    let o = r.w.ch.query(&ctl, "getTokenOracle", vec![enc::s(id)]);
    let mut rd = enc::Rd::new(o.values.first().map(|v| v.as_slice()).unwrap_or(&[]));
    let pair = (rd.str(), rd.str());
    let tol: Vec<BigInt> = (0..4).map(|_| rd.dec().0).collect();
    let rest = (rd.addr(), (rd.u8(), rd.u8(), rd.u8()), rd.u32() as u64, rd.u32() as u64, rd.u64());
    let flip = r.w.cfg.flip & 4 != 0;
    let name = |t: u8| TOKS[t as usize].id.to_string();
    let wpair = if flip { (name(USDC), name(UTK)) } else { (name(UTK), name(USDC)) };
    let wrest = (at.as_bytes().to_vec(), (1, 1, src as u8), 9, pid.unwrap_or(0), 900);
    if pair != wpair || tol[0] != BigInt::from(10_000 + first) || tol[2] != BigInt::from(10_000 + last) || rest != wrest {
        return bad("stored configuration", format!("oracle of a new token reads {:?}, expected {:?} {:?}", (pair, tol, rest), wpair, wrest));
    }
    // and the source of DEX quotes (this one quotes nothing)
    let t = BTC;
    if spec.oracles[t as usize].method == 1 {
        let s1 = addr_sc(K_SAFE, 1);
        r.w.ch.add_sc(&s1, "safe", &owner);
        set(&mut r, "setSafePriceView", &s1, true)?;
        let p = r.w.px_egld(t);
        if p.is_some() {
            return bad("replaced quote source still used", format!("{} at {:?}", show(t), p));
        }
    }
    Ok(())
}
