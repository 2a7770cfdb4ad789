//! A fixed deployment of the real contracts and shorthand for scripted histories.
use crate::types::*;
use crate::world::*;
use crate::{chain::Out, enc};
use num_bigint::BigInt;

pub const PC: u128 = RAY / 100;
pub const USD: u128 = WAD;

pub fn rate() -> RateCfg {
    RateCfg { max: 100 * PC, base: PC, s1: 5 * PC, s2: 20 * PC, s3: 80 * PC, mid: 65 * PC, opt: 90 * PC, rf: 1000 }
}
pub fn asset() -> AssetCfg {
    AssetCfg {
        ltv: 7500,
        lt: 8000,
        bonus: 500,
        fee: 1000,
        collat: true,
        borrow: true,
        isolated: false,
        ceiling: 0,
        siloed: false,
        flash: true,
        flash_fee: 50,
        iso_borrow: true,
        borrow_cap: 0,
        supply_cap: 0,
    }
}
/// markets: EGLD 20$, USDC 1$, USDT 1$, BTC 100000$, XOXNO 0.02$, UTK 0.05$, XEGLD 1.1 EGLD, LEGLD 1.05 EGLD
pub fn cfg() -> Cfg {
    let oracle = OracleCfg { method: 4, first: 200, last: 500, stale: 4_000_000_000 };
    Cfg {
        t0: 1_700_000_000,
        markets: [WEGLD, USDC, USDT, BTC, XOXNO, UTK, XEGLD, LEGLD]
            .iter()
            .map(|t| MarketCfg { tok: *t, rate: rate(), ac: asset() })
            .collect(),
        oracles: vec![oracle; NTOK],
        emodes: vec![],
        borrow_limit: 10,
        supply_limit: 10,
        users: 5,
        nodes: 3,
        quorum: 1,
        px: vec![20 * USD, USD, USD, 100_000 * USD, USD / 50, USD / 20, 0, 0, 0, 0, 0],
        rates: vec![0, 0, 0, 0, 0, 0, WAD * 11 / 10, WAD * 105 / 100, WAD * 12 / 10, 0, 0],
    }
}
pub fn market(c: &mut Cfg, t: u8) -> &mut MarketCfg {
    c.markets.iter_mut().find(|m| m.tok == t).unwrap()
}
/// n whole tokens
pub fn n(t: u8, v: u128) -> u128 {
    v * 10u128.pow(tdec(t))
}

pub struct D {
    pub w: World,
}
impl D {
    pub fn new(c: &Cfg) -> D {
        let w = World::deploy(c);
        assert!(w.setup_errors.is_empty(), "setup: {:?}", w.setup_errors);
        D { w }
    }
    pub fn run(&mut self, from: u8, op: Op) -> Out {
        self.w.exec(from, &op, None)
    }
    pub fn ok(&mut self, from: u8, op: Op) -> Out {
        let s = format!("{:?}", op);
        let o = self.w.exec(from, &op, None);
        assert!(o.ok, "refused: {} : {}", s, o.msg);
        o
    }
    pub fn refused(&mut self, from: u8, op: Op, why: &str) {
        let s = format!("{:?}", op);
        let o = self.w.exec(from, &op, None);
        assert!(!o.ok, "accepted although {}: {}", why, s);
    }
    pub fn last(&mut self) -> u64 {
        let ctl = self.w.ctl.clone();
        let o = self.w.ch.query(&ctl, "getAccountNonce", vec![]);
        o.values.first().map(|v| enc::to_u64(v)).unwrap_or(0)
    }
    /// new account holding these supplies
    pub fn open(&mut self, u: u8, pays: &[(u8, u128)]) -> u64 {
        self.ok(u, Op::Supply { nft: None, to: None, emode: None, pays: pays.to_vec() });
        self.last()
    }
    pub fn open_em(&mut self, u: u8, e: u8, pays: &[(u8, u128)]) -> u64 {
        self.ok(u, Op::Supply { nft: None, to: None, emode: Some(e), pays: pays.to_vec() });
        self.last()
    }
    pub fn supply(&mut self, u: u8, nft: u64, pays: &[(u8, u128)]) -> Out {
        self.run(u, Op::Supply { nft: Some(nft), to: None, emode: None, pays: pays.to_vec() })
    }
    pub fn borrow(&mut self, u: u8, nft: u64, b: &[(u8, u128)]) -> Out {
        self.run(u, Op::Borrow { nft, b: b.to_vec() })
    }
    pub fn withdraw(&mut self, u: u8, nft: u64, w: &[(u8, u128)]) -> Out {
        self.run(u, Op::Withdraw { nft, w: w.to_vec() })
    }
    pub fn repay(&mut self, u: u8, nonce: u64, p: &[(u8, u128)]) -> Out {
        self.run(u, Op::Repay { nonce, pays: p.to_vec() })
    }
    pub fn liquidate(&mut self, u: u8, nonce: u64, p: &[(u8, u128)]) -> Out {
        self.run(u, Op::Liquidate { nonce, pays: p.to_vec() })
    }
    /// the clock moves
    pub fn adv(&mut self, secs: u64) {
        let t = self.w.ch.now() + secs;
        self.w.ch.set_time(t, t / 6);
    }
    /// a new USD price for one token, on the feed and on its DEX pair
    pub fn price(&mut self, t: u8, usd: u128) {
        self.w.cfg.px[t as usize] = usd;
        let px = self.w.cfg.px.clone();
        let now = self.w.ch.now();
        let subs: Vec<(u8, u64, u128)> = FEEDS.iter().map(|t| (*t, now, px[*t as usize])).collect();
        for i in 0..self.w.cfg.quorum {
            self.ok(NODE0 + i, Op::SubmitBatch { subs: subs.clone() });
        }
        for t in DEXED {
            let q = fair_dex(&px, t);
            self.w.apply_dex(t, Some(q));
        }
    }
    pub fn sync(&mut self, t: u8) {
        self.ok(OWNER, Op::UpdIdx { toks: vec![t] });
    }
    pub fn pool(&self, t: u8) -> PoolSnap {
        self.w.pool_snap(t)
    }
    pub fn bal(&self, who: Who, t: u8) -> BigInt {
        let a = self.w.who_addr(who).unwrap();
        BigInt::from(self.w.ch.bal(&a, tid(t)))
    }
    pub fn debt(&mut self, nonce: u64, t: u8) -> BigInt {
        self.view("getBorrowAmountForToken", vec![enc::u(nonce), enc::s(tid(t))])
    }
    pub fn coll(&mut self, nonce: u64, t: u8) -> BigInt {
        self.view("getCollateralAmountForToken", vec![enc::u(nonce), enc::s(tid(t))])
    }
    pub fn view(&mut self, f: &str, args: Vec<Vec<u8>>) -> BigInt {
        self.w.view_dec(f, args).unwrap_or_default()
    }
    pub fn hf(&mut self, nonce: u64) -> BigInt {
        self.view("getHealthFactor", vec![enc::u(nonce)])
    }
}
/// user 1 lends plenty of everything
pub fn fund(d: &mut D) -> u64 {
    let p: Vec<(u8, u128)> = vec![(WEGLD, n(WEGLD, 50_000)), (USDC, n(USDC, 1_000_000)), (USDT, n(USDT, 1_000_000)), (BTC, n(BTC, 10)), (XOXNO, n(XOXNO, 10_000_000)), (UTK, n(UTK, 1_000_000))];
    d.open(1, &p)
}
/// raw amount, as a float number of whole tokens
pub fn whole(t: u8, v: &BigInt) -> f64 {
    v.to_string().parse::<f64>().unwrap() / 10f64.powi(tdec(t) as i32)
}
pub fn f(v: &BigInt) -> f64 {
    v.to_string().parse().unwrap()
}
pub fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + 1e-12
}
