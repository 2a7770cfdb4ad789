//! Property oracles. Each judges what transactions did to observable state.
use crate::chain::Out;
use crate::engine::Stats;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::spec::Spec;
use crate::types::*;
use crate::world::*;
use num_bigint::BigInt;
use num_traits::Zero;
use std::collections::BTreeMap;

pub mod money;
pub mod risk;
pub mod modes;
pub mod gov;
pub mod oracle;
pub mod events;
pub mod served;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
}
pub type R = Result<(), Viol>;
pub fn bad<T>(kind: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { kind: kind.to_string(), msg })
}

pub struct Ctx<'a> {
    pub pre: &'a Snap,
    pub post: &'a Snap,
    pub from: u8,
    pub op: &'a Op,
    pub out: &'a Out,
    /// configuration in force before / after the transaction
    pub spec0: &'a Spec,
    pub spec: &'a Spec,
    pub abort: bool,
}

pub trait Check {
    fn start(&mut self, _w: &mut World, _s: &Snap, _spec: &Spec) {}
    /// every request of the deployment is valid: these were refused
    fn setup(&mut self, _refused: &[String]) -> R {
        Ok(())
    }
    fn before(&mut self, _w: &mut World, _s: &Snap, _spec: &Spec, _from: u8, _op: &Op) {}
    fn tx(&mut self, _w: &mut World, _c: &Ctx, _st: &mut Stats) -> R {
        Ok(())
    }
    fn env(&mut self, _w: &mut World, _s: &Snap, _step: &Step, _spec: &Spec, _st: &mut Stats) -> R {
        Ok(())
    }
    fn probe(&mut self, _w: &mut World, _s: &Snap, _spec: &Spec, _step: &Step, _st: &mut Stats) -> R {
        Ok(())
    }
    fn end(&mut self, _w: &mut World, _s: &Snap, _spec: &Spec, _st: &mut Stats) -> R {
        Ok(())
    }
    fn resnap_failed(&self) -> bool {
        false
    }
}

impl Ctx<'_> {
    /// markets brought to the time of the transaction (before it touched them)
    pub fn acc0(&self) -> BTreeMap<u8, Accrued> {
        accrue_all(self.pre, &self.spec0.rates, self.post.now_ms)
    }
    pub fn acc0_of(&self, t: u8) -> Accrued {
        accrue(&self.pre.pools[&t], &self.spec0.rates[&t], self.post.now_ms)
    }
    pub fn acc1(&self) -> BTreeMap<u8, Accrued> {
        accrue_all(self.post, &self.spec.rates, self.post.now_ms)
    }
    pub fn name(&self) -> String {
        crate::engine::op_name(self.op)
    }
    pub fn dbal(&self, who: Who, t: u8) -> BigInt {
        let g = |s: &Snap| s.bals.get(&(who, t)).cloned().unwrap_or_default();
        g(self.post) - g(self.pre)
    }
    /// log2 bucket, for telling cases apart
    pub fn key(&self) -> (String, bool) {
        (self.name(), self.out.ok)
    }
}

pub fn bits(v: &BigInt) -> u64 {
    v.bits()
}

/// account an operation acts on
pub fn subject(op: &Op, pre: &Snap) -> Option<u64> {
    match op {
        Op::Supply { nft, to, .. } => {
            if let Some(n) = nft {
                Some(*n)
            } else if let Some(n) = to {
                if *n == 0 {
                    Some(pre.last_nonce + 1)
                } else {
                    Some(*n)
                }
            } else {
                Some(pre.last_nonce + 1)
            }
        }
        Op::Multiply { nft, .. } => Some(nft.unwrap_or(pre.last_nonce + 1)),
        Op::Withdraw { nft, .. }
        | Op::Borrow { nft, .. }
        | Op::SwapDebt { nft, .. }
        | Op::SwapColl { nft, .. }
        | Op::RepayColl { nft, .. } => Some(*nft),
        Op::Repay { nonce, .. } | Op::Liquidate { nonce, .. } | Op::Clean { nonce } => Some(*nonce),
        _ => None,
    }
}

pub fn scaled(s: &Snap, nonce: u64, t: u8, borrow: bool) -> BigInt {
    s.accts
        .get(&nonce)
        .and_then(|a| if borrow { a.bor.get(&t) } else { a.dep.get(&t) })
        .map(|p| p.scaled.clone())
        .unwrap_or_default()
}

/// sum of a payment list per token
pub fn by_tok(v: &[(u8, u128)]) -> BTreeMap<u8, BigInt> {
    let mut m = BTreeMap::new();
    for (t, a) in v {
        *m.entry(*t).or_insert_with(BigInt::zero) += bi(*a);
    }
    m
}

pub fn prices(w: &mut World) -> BTreeMap<u8, BigInt> {
    let ts: Vec<u8> = w.pools.keys().cloned().collect();
    ts.into_iter().filter_map(|t| w.px_egld(t).map(|p| (t, p))).collect()
}

/// a ≥ b up to relative 1e-13 and a hair of absolute slack (RAY units)
pub fn ge(a: &BigInt, b: &BigInt) -> bool {
    let m = if a > b { a } else { b };
    a + m / BigInt::from(10_000_000_000_000u64) + BigInt::from(1_000_000_000_000u64) >= *b
}
/// clearly a > b
pub fn gt_clear(a: &BigInt, b: &BigInt) -> bool {
    !ge(b, a)
}

pub fn show(t: u8) -> &'static str {
    tid(t)
}

pub const IDS: &[&str] = &[
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16",
    "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29", "P30", "P31", "P32",
    "P33", "P34", "P35", "P36",
];

pub fn make(p: &str) -> Box<dyn Check> {
    match p {
        "P01" => Box::new(money::Solvency),
        "P02" => Box::new(money::Totals),
        "P03" => Box::new(money::Accrual),
        "P04" => Box::new(money::Split),
        "P05" => Box::new(money::RoundTrip),
        "P06" => Box::new(risk::Views),
        "P07" => Box::new(money::SupplyWithdraw),
        "P08" => Box::new(money::BorrowRepay),
        "P09" => Box::new(risk::BorrowLtv),
        "P10" => Box::new(risk::EndHealthy),
        "P11" => Box::new(risk::LiqTerms),
        "P12" => Box::new(risk::LiqAccounting),
        "P13" => Box::new(risk::LiqProgress),
        "P14" => Box::new(risk::BadDebt),
        "P15" => Box::new(risk::Params),
        "P16" => Box::new(money::FlashLoan),
        "P17" => Box::new(money::Reentry),
        "P18" => Box::new(modes::Caps::default()),
        "P19" => Box::new(modes::Limits),
        "P20" => Box::new(modes::Isolated::default()),
        "P21" => Box::new(modes::Siloed),
        "P22" => Box::new(modes::EMode),
        "P23" => Box::new(modes::Nft::default()),
        "P24" => Box::new(oracle::Safety::default()),
        "P25" => Box::new(oracle::Composition),
        "P26" => Box::new(gov::Aggregator::default()),
        "P27" => Box::new(gov::AggLive::default()),
        "P28" => Box::new(gov::Pause::default()),
        "P29" => Box::new(money::Treasury),
        "P30" => Box::new(money::Rewards),
        "P31" => Box::new(gov::Access::default()),
        "P32" => Box::new(money::Custody),
        "P33" => Box::new(money::Exit::default()),
        "P34" => Box::new(gov::Config),
        "P35" => Box::new(money::Frame),
        "P36" => Box::new(events::Events::default()),
        _ => panic!("unknown property {}", p),
    }
}

pub fn profile(p: &str, rng: &mut Rng) -> Profile {
    let b = Profile::base();
    let _ = &rng;
    match p {
        "P01" | "P02" => b.set(K::LpMove, 2),
        "P03" => b.set(K::UpdIdx, 80).set(K::Adv, 160).set(K::PoolParams, 12).set(K::Crash, 8),
        "P04" => b.set(K::UpdIdx, 90).set(K::Adv, 130).set(K::PoolParams, 8),
        "P05" => {
            let mut b = b.set(K::Probe, 160);
            b.probe_kinds = 6;
            b
        }
        "P06" => {
            let mut b = b.set(K::Probe, 120).set(K::Crash, 40);
            b.probe_kinds = 4;
            b
        }
        "P07" => b.set(K::Withdraw, 160).set(K::Supply, 140).set(K::Clean, 25).set(K::Probe, 10),
        "P08" => b.set(K::Borrow, 150).set(K::Repay, 150).set(K::Probe, 10),
        "P09" => b.set(K::Borrow, 260).set(K::EditAsset, 12),
        "P10" => {
            let mut b = b.set(K::Withdraw, 140).set(K::Multiply, 90).set(K::SwapDebt, 50).set(K::SwapColl, 50).set(K::RepayColl, 50).set(K::Scene, 60);
            b.mid_move = 30;
            b.derived_pct = 75;
            b
        }
        "P11" | "P12" => b.set(K::Liquidate, 220).set(K::Crash, 110).set(K::Borrow, 120).set(K::Scene, 40),
        "P13" => {
            let mut b = b.set(K::Liquidate, 160).set(K::Crash, 110).set(K::Borrow, 120).set(K::Probe, 80).set(K::Scene, 30);
            b.probe_kinds = 1;
            b
        }
        "P14" => {
            let mut b = b.set(K::Liquidate, 120).set(K::Crash, 140).set(K::Borrow, 120).set(K::Clean, 160).set(K::Scene, 50);
            b.dust_pct = 25;
            b
        }
        "P15" => b.set(K::UpdThr, 120).set(K::EditAsset, 60).set(K::Emode, 20).set(K::Crash, 30).set(K::Scene, 40),
        "P16" => b.set(K::Flash, 260).set(K::Multiply, 10),
        "P17" => b.set(K::Flash, 260).set(K::Multiply, 10).set(K::Probe, 80),
        "P18" => {
            let mut b = b.set(K::EditAsset, 40).set(K::Supply, 130).set(K::Borrow, 150).set(K::Multiply, 40).set(K::SwapDebt, 30).set(K::SwapColl, 30).set(K::Scene, 40);
            b.caps_pct = 75;
            b
        }
        "P19" => {
            let mut b = b.set(K::Limits, 10).set(K::Supply, 140).set(K::Borrow, 140).set(K::Multiply, 50).set(K::SwapDebt, 40);
            b.limit_small_pct = 85;
            b
        }
        "P20" => {
            let mut b = b.set(K::Borrow, 160).set(K::Repay, 120).set(K::EditAsset, 15).set(K::Clean, 30).set(K::Scene, 45);
            b.iso_pct = 100;
            b
        }
        "P21" => {
            let mut b = b.set(K::Borrow, 220).set(K::Multiply, 50).set(K::SwapDebt, 60).set(K::EditAsset, 14).set(K::Scene, 70);
            b.siloed_pct = 100;
            b
        }
        "P22" => {
            let mut b = b.set(K::Emode, 40).set(K::UpdThr, 25).set(K::Multiply, 40).set(K::Scene, 30);
            b.emode_pct = 100;
            b
        }
        "P23" => {
            let mut b = b.set(K::MoveNft, 60).set(K::Withdraw, 130).set(K::RepayColl, 40).set(K::Clean, 60).set(K::Crash, 60).set(K::Probe, 30);
            b.probe_kinds = 2;
            b.dust_pct = 15;
            b
        }
        "P24" => {
            let mut b = b
                .set(K::DexMove, 160)
                .set(K::PairState, 40)
                .set(K::LpMove, 40)
                .set(K::Tolerance, 12)
                .set(K::AggPause, 12)
                .set(K::NodeVote, 20)
                .set(K::PriceMove, 40);
            b.stale_pct = 70;
            b.dex_follow = 60;
            b.max_jump = 20_000;
            b
        }
        "P25" => {
            let mut b = b
                .set(K::DexMove, 120)
                .set(K::LpMove, 80)
                .set(K::PairState, 20)
                .set(K::Tolerance, 12)
                .set(K::RateMove, 40)
                .set(K::PriceMove, 80);
            b.derived_pct = 90;
            b.dex_follow = 70;
            b
        }
        "P26" | "P27" => {
            let mut b = b.only(&[
                (K::NodeVote, 200),
                (K::NodeFault, 60),
                (K::AggAdmin, 25),
                (K::AggPause, 8),
                (K::Adv, 50),
                (K::PriceMove, 20),
            ]);
            b.multi_quorum_pct = 85;
            b.max_jump = 8_000;
            b.steps = (80, 220);
            b
        }
        "P28" => b
            .set(K::Pause, 60)
            .set(K::UpgradeCtl, 12)
            .set(K::UpgradePool, 12)
            .set(K::AggPause, 18)
            .set(K::NodeVote, 25),
        "P29" => b.set(K::Claim, 110).set(K::Flash, 60).set(K::Clean, 30).set(K::Liquidate, 90),
        "P30" => b.set(K::Rewards, 120),
        "P31" => b
            .set(K::Raw, 450)
            .set(K::EditAsset, 20)
            .set(K::Emode, 20)
            .set(K::Limits, 10)
            .set(K::Tolerance, 20)
            .set(K::PoolParams, 14)
            .set(K::CreateMarket, 20)
            .set(K::UpgradePool, 10)
            .set(K::Pause, 10)
            .set(K::AggPause, 8)
            .set(K::AggAdmin, 20)
            .set(K::NodeVote, 20)
            .set(K::Rewards, 20),
        "P32" => b.set(K::Multiply, 110).set(K::SwapDebt, 90).set(K::SwapColl, 90).set(K::RepayColl, 90).set(K::Flash, 40).set(K::Probe, 14),
        "P33" => {
            let mut b = b.set(K::Pause, 4).set(K::AggPause, 4).set(K::PairState, 6).set(K::DexMove, 20).set(K::UpgradePool, 4);
            b.dex_follow = 80;
            b.stale_pct = 30;
            b
        }
        "P34" => {
            let mut b = b
                .set(K::EditAsset, 160)
                .set(K::PoolParams, 140)
                .set(K::CreateMarket, 60)
                .set(K::Tolerance, 120)
                .set(K::Limits, 30)
                .set(K::Emode, 40)
                .set(K::AggAdmin, 40)
                .set(K::Probe, 30);
            b.bad_cfg = 50;
            b.multi_quorum_pct = 40;
            b
        }
        "P36" => b
            .set(K::EditAsset, 25)
            .set(K::PoolParams, 10)
            .set(K::CreateMarket, 10)
            .set(K::Tolerance, 12)
            .set(K::Emode, 15)
            .set(K::UpdThr, 25)
            .set(K::Clean, 40)
            .set(K::Liquidate, 110)
            .set(K::Crash, 60)
            .set(K::NodeVote, 25)
            .set(K::Claim, 25)
            .set(K::Rewards, 20)
            .set(K::Flash, 30)
            .set(K::Scene, 25),
        _ => b,
    }
}
