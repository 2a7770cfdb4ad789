//! The configuration the simulator believes is in force: what successful admin calls set.
use crate::types::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct EmSpec {
    pub ltv: u64,
    pub lt: u64,
    pub bonus: u64,
    pub deprecated: bool,
    pub assets: BTreeMap<u8, (bool, bool)>,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub rates: BTreeMap<u8, RateCfg>,
    pub acs: BTreeMap<u8, AssetCfg>,
    pub emodes: BTreeMap<u8, EmSpec>,
    pub last_em: u8,
    pub borrow_limit: u8,
    pub supply_limit: u8,
    pub paused: bool,
    pub oracles: Vec<OracleCfg>,
    pub agg: AggSpec,
}

/// Reference price aggregator.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct AggSpec {
    pub paused: bool,
    pub quorum: u64,
    /// registered nodes -> (total, accepted)
    pub nodes: BTreeMap<u8, (u64, u64)>,
    pub rounds: BTreeMap<String, Round>,
    /// open round: ticker -> (first vote time, votes)
    pub open: BTreeMap<String, (u64, BTreeMap<u8, u128>)>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Round {
    pub price: u128,
    pub ts: u64,
    pub id: u32,
}

impl AggSpec {
    pub fn median(v: &mut Vec<u128>) -> u128 {
        v.sort();
        let n = v.len();
        if n % 2 == 1 {
            v[n / 2]
        } else {
            // mean of the two middle votes
            let (a, b) = (v[n / 2 - 1], v[n / 2]);
            (a / 2) + (b / 2) + ((a % 2 + b % 2) / 2)
        }
    }
    /// one accepted-or-not vote; caller has checked pause, registration and timestamp
    pub fn vote(&mut self, node: u8, tick: &str, price: u128, now: u64) {
        let e = self.open.entry(tick.to_string()).or_insert((now, BTreeMap::new()));
        if e.1.is_empty() {
            e.0 = now;
        }
        if now > e.0 + 1800 {
            e.0 = now;
            e.1.clear();
        }
        let st = self.nodes.get_mut(&node);
        let fresh = !e.1.contains_key(&node);
        if let Some(s) = st {
            s.0 += 1;
            if fresh {
                s.1 += 1;
            }
        }
        if !fresh {
            return;
        }
        e.1.insert(node, price);
        if e.1.len() as u64 >= self.quorum {
            let mut v: Vec<u128> = e.1.values().cloned().collect();
            let id = self.rounds.get(tick).map(|r| r.id + 1).unwrap_or(0);
            let r = Round { price: Self::median(&mut v), ts: now, id };
            self.rounds.insert(tick.to_string(), r);
            e.1.clear();
        }
    }
    pub fn ts_ok(ts: u64, now: u64) -> bool {
        ts <= now && now - ts <= 30
    }
}

impl Spec {
    pub fn new(c: &Cfg) -> Spec {
        let mut agg = AggSpec { paused: false, quorum: c.quorum as u64, ..Default::default() };
        for i in 0..c.nodes {
            agg.nodes.insert(i, (0, 0));
        }
        for i in 0..c.quorum {
            for t in FEEDS {
                agg.vote(i, TOKS[t as usize].tick, c.px[t as usize], c.t0);
            }
        }
        let mut s = Spec {
            rates: c.markets.iter().map(|m| (m.tok, m.rate.clone())).collect(),
            acs: c.markets.iter().map(|m| (m.tok, m.ac.clone())).collect(),
            emodes: BTreeMap::new(),
            last_em: 0,
            borrow_limit: c.borrow_limit,
            supply_limit: c.supply_limit,
            paused: false,
            oracles: c.oracles.clone(),
            agg,
        };
        for (i, e) in c.emodes.iter().enumerate() {
            s.emodes.insert(
                i as u8 + 1,
                EmSpec {
                    ltv: e.ltv,
                    lt: e.lt,
                    bonus: e.bonus,
                    deprecated: false,
                    assets: e.assets.iter().map(|(t, c, b)| (*t, (*c, *b))).collect(),
                },
            );
            s.last_em = i as u8 + 1;
        }
        s
    }

    /// Effect of a transaction the contract accepted.
    pub fn apply(&mut self, from: u8, op: &Op, now: u64) {
        match op {
            Op::EditAsset { tok, ac } => {
                self.acs.insert(*tok, ac.clone());
            }
            Op::CreateMarket { m } => {
                self.rates.insert(m.tok, m.rate.clone());
                self.acs.insert(m.tok, m.ac.clone());
            }
            Op::PoolParams { tok, r } => {
                self.rates.insert(*tok, r.clone());
            }
            Op::Limits { borrow, supply } => {
                self.borrow_limit = *borrow;
                self.supply_limit = *supply;
            }
            Op::Tolerance { tok, first, last } => {
                self.oracles[*tok as usize].first = *first;
                self.oracles[*tok as usize].last = *last;
            }
            Op::EmAdd { ltv, lt, bonus } => {
                self.last_em += 1;
                self.emodes.insert(
                    self.last_em,
                    EmSpec { ltv: *ltv, lt: *lt, bonus: *bonus, deprecated: false, assets: BTreeMap::new() },
                );
            }
            Op::EmEdit { id, ltv, lt, bonus, deprecated } => {
                if let Some(e) = self.emodes.get_mut(id) {
                    e.ltv = *ltv;
                    e.lt = *lt;
                    e.bonus = *bonus;
                    e.deprecated = *deprecated;
                }
            }
            Op::EmRemove { id } => {
                if let Some(e) = self.emodes.get_mut(id) {
                    e.deprecated = true;
                    e.assets.clear();
                }
            }
            Op::EmAddAsset { tok, id, collat, borrow } | Op::EmEditAsset { tok, id, collat, borrow } => {
                if let Some(e) = self.emodes.get_mut(id) {
                    e.assets.insert(*tok, (*collat, *borrow));
                }
            }
            Op::EmRemoveAsset { tok, id } => {
                if let Some(e) = self.emodes.get_mut(id) {
                    e.assets.remove(tok);
                }
            }
            Op::PauseCtl | Op::UpgradeCtl => self.paused = true,
            Op::UnpauseCtl => self.paused = false,
            Op::Submit { tick, price, .. } => self.agg.vote(from.wrapping_sub(NODE0), tick, *price, now),
            Op::SubmitBatch { subs } => {
                for (t, _, p) in subs {
                    self.agg.vote(from.wrapping_sub(NODE0), TOKS[*t as usize].tick, *p, now);
                }
            }
            Op::AggPause | Op::AggUpgrade => self.agg.paused = true,
            Op::AggUnpause => self.agg.paused = false,
            Op::AggAdd { nodes } => {
                for n in nodes {
                    self.agg.nodes.entry(*n).or_insert((0, 0));
                }
            }
            Op::AggRemove { count, nodes } => {
                for n in nodes {
                    self.agg.nodes.remove(n);
                }
                self.agg.quorum = *count;
            }
            Op::AggCount { count } => self.agg.quorum = *count,
            _ => {}
        }
    }
}
