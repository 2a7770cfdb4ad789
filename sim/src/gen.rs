//! Seeded generation of run configurations and of the step sequence (clients, oracle nodes,
//! keepers, attackers, admins, and the faults they meet).
use crate::model::{self, f};
use crate::rng::Rng;
use crate::spec::Spec;
use crate::types::*;
use crate::world::*;
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(usize)]
pub enum K {
    Supply,
    Withdraw,
    Borrow,
    Repay,
    Liquidate,
    Flash,
    UpdThr,
    UpdIdx,
    Clean,
    Multiply,
    SwapDebt,
    SwapColl,
    RepayColl,
    Claim,
    Rewards,
    MoveNft,
    EditAsset,
    Emode,
    Limits,
    Tolerance,
    PoolParams,
    CreateMarket,
    Pause,
    UpgradeCtl,
    UpgradePool,
    Adv,
    PriceMove,
    Crash,
    DexMove,
    PairState,
    RateMove,
    LpMove,
    NodeVote,
    NodeFault,
    AggAdmin,
    AggPause,
    Raw,
    Probe,
    Scene,
    N,
}
pub const NK: usize = K::N as usize;

/// One move of a scene; generated when its turn comes, from the state of that moment.
#[derive(Clone, Copy, Debug)]
enum Todo {
    /// open an account (isolated collateral?, inside an e-mode category?) and act on it from now on
    Fresh(bool, bool),
    Make(K),
    /// the same, and while its router runs the price of something the account in focus holds falls
    Shift(K),
    /// collateral of the account in focus becomes worth next to nothing
    Ruin,
    /// a long quiet time
    Gap,
    /// the settings of an asset the account holds change
    Edit,
    /// terms of a batch of accounts are refreshed, in any order
    Thr,
    /// the account in focus borrows several assets at once
    Loans,
    /// the account in focus ends just below the liquidation line
    Graze,
    /// … or just above it
    Edge,
    /// the account in focus is topped up and borrows everything a market has
    Drain,
    /// every debt of the account in focus is offered in full, in any order
    LiqAll,
    /// a cap is set just above what a market holds now
    Cap(bool),
    /// an amount around what the cap leaves once interest is counted
    HitCap(bool),
    /// take or swap into / out of a siloed debt
    Silo,
    /// something the account in focus owes becomes siloed (or stops being so)
    Silence,
    /// the account in focus also gets a few smallest units of another token
    Dust,
    /// something the account in focus owes or holds is no longer accepted for new business
    Delist,
    /// the account in focus repays until a few dollars are left
    Tail,
    Unfocus,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub w: [u32; NK],
    /// per mille of transactions delayed / duplicated / dropped in the mempool
    pub delay: u64,
    pub dup: u64,
    pub drop: u64,
    /// per mille of transactions aborted mid-execution
    pub abort: u64,
    /// probability (%) that oracle prices have a finite freshness window that matters
    pub stale_pct: u64,
    /// probability (%) that DEX quotes follow the market
    pub dex_follow: u64,
    pub caps_pct: u64,
    pub iso_pct: u64,
    pub siloed_pct: u64,
    pub emode_pct: u64,
    pub limit_small_pct: u64,
    pub multi_quorum_pct: u64,
    pub derived_pct: u64,
    pub steps: (u64, u64),
    /// upper bound of a clock jump, seconds (log-uniform)
    pub max_jump: u64,
    pub swarm: bool,
    /// high-yield / extreme rate curves allowed
    pub fixed_decimals: Option<Vec<u8>>,
    pub dust_pct: u64,
    pub probe_kinds: u16,
    /// percentage of bad (invalid) admin parameters
    pub bad_cfg: u64,
    /// percentage of runs in which one 18-decimals token is worth less than 1e-9 EGLD
    pub micro_pct: u64,
    /// percentage of swap programs that move a price source while they run
    pub mid_move: u64,
}

impl Profile {
    pub fn base() -> Profile {
        let mut w = [0u32; NK];
        let set = |w: &mut [u32; NK], k: K, v: u32| w[k as usize] = v;
        set(&mut w, K::Supply, 90);
        set(&mut w, K::Withdraw, 70);
        set(&mut w, K::Borrow, 90);
        set(&mut w, K::Repay, 60);
        set(&mut w, K::Liquidate, 50);
        set(&mut w, K::Flash, 15);
        set(&mut w, K::UpdThr, 10);
        set(&mut w, K::UpdIdx, 20);
        set(&mut w, K::Clean, 12);
        set(&mut w, K::Multiply, 25);
        set(&mut w, K::SwapDebt, 18);
        set(&mut w, K::SwapColl, 18);
        set(&mut w, K::RepayColl, 18);
        set(&mut w, K::Claim, 10);
        set(&mut w, K::Rewards, 6);
        set(&mut w, K::MoveNft, 5);
        set(&mut w, K::EditAsset, 6);
        set(&mut w, K::Emode, 2);
        set(&mut w, K::Limits, 1);
        set(&mut w, K::PoolParams, 3);
        set(&mut w, K::Pause, 1);
        set(&mut w, K::UpgradePool, 1);
        set(&mut w, K::Adv, 70);
        set(&mut w, K::PriceMove, 25);
        set(&mut w, K::Crash, 20);
        set(&mut w, K::RateMove, 4);
        set(&mut w, K::Scene, 8);
        Profile {
            w,
            delay: 80,
            dup: 20,
            drop: 15,
            abort: 15,
            stale_pct: 10,
            dex_follow: 100,
            caps_pct: 15,
            iso_pct: 15,
            siloed_pct: 12,
            emode_pct: 40,
            limit_small_pct: 10,
            multi_quorum_pct: 10,
            derived_pct: 50,
            steps: (60, 160),
            max_jump: 40_000_000,
            swarm: true,
            fixed_decimals: None,
            dust_pct: 8,
            probe_kinds: 1,
            bad_cfg: 0,
            micro_pct: 4,
            mid_move: 0,
        }
    }
    pub fn set(mut self, k: K, v: u32) -> Self {
        self.w[k as usize] = v;
        self
    }
    pub fn only(mut self, ks: &[(K, u32)]) -> Self {
        self.w = [0; NK];
        for (k, v) in ks {
            self.w[*k as usize] = *v;
        }
        self
    }
}

fn fill_rate(rng: &mut Rng) -> RateCfg {
    let pc = RAY / 100;
    let base = if rng.pct(25) { 0 } else { rng.u128_below(4 * pc) };
    let s1 = rng.u128_below(20 * pc) + pc / 10;
    let s2 = rng.u128_below(60 * pc) + pc / 10;
    let s3 = rng.u128_below(300 * pc) + pc;
    let mid = if rng.pct(10) { pc } else { rng.u128_below(60 * pc) + 10 * pc };
    let opt = (mid + pc + rng.u128_below(35 * pc)).min(98 * pc);
    let max = base + match rng.below(4) {
        0 => 5 * pc,
        1 => 50 * pc,
        2 => 100 * pc,
        _ => 400 * pc,
    } + rng.u128_below(10 * pc) + 1;
    let rf = *rng.pick(&[0u64, 1, 500, 1000, 2000, 3333, 5000, 9999]);
    RateCfg { max, base, s1, s2, s3, mid, opt: opt.max(mid + 1), rf }
}

pub fn gen_asset(rng: &mut Rng, p: &Profile, usd: f64, dec: u32, iso: bool, siloed: bool) -> AssetCfg {
    let ltv = rng.range(30, 88) * 100 + rng.below(100);
    let lt = (ltv + 1 + rng.below(900)).min(9600);
    let bonus = *rng.pick(&[100u64, 250, 500, 700, 1000, 1499, 1500, 1500, 2200]);
    let fee = *rng.pick(&[0u64, 100, 500, 1000, 2500, 5000]);
    let cap = |rng: &mut Rng| -> u128 {
        if rng.pct(p.caps_pct) {
            let v = 10f64.powf(1.0 + rng.unit() * 6.0) / usd;
            ((v * 10f64.powi(dec as i32)) as u128).max(1)
        } else {
            0
        }
    };
    AssetCfg {
        ltv,
        lt,
        bonus,
        fee,
        collat: !rng.pct(6),
        borrow: !rng.pct(6),
        isolated: iso,
        ceiling: if iso { (10f64.powf(1.0 + rng.unit() * 5.5) as u128) * WAD } else { 0 },
        siloed,
        flash: !rng.pct(8),
        flash_fee: *rng.pick(&[0u64, 1, 9, 30, 100, 999]),
        iso_borrow: rng.pct(60),
        borrow_cap: cap(rng),
        supply_cap: cap(rng),
    }
}

pub fn usd_of(px: &[u128], rates: &[u128], t: u8) -> f64 {
    let w = 1e18;
    let g = |t: u8| px[t as usize] as f64 / w;
    match t {
        XEGLD | LEGLD => g(WEGLD) * rates[t as usize] as f64 / w,
        LXOXNO => g(XOXNO) * rates[t as usize] as f64 / w,
        LPA => 10.0,
        LPB => 5.0,
        _ => g(t),
    }
}

pub fn gen_cfg(rng: &mut Rng, p: &Profile) -> Cfg {
    let mut px = vec![0u128; NTOK];
    let j = |rng: &mut Rng, v: f64| -> u128 { (v * (0.5 + rng.unit() * 1.5) * 1e18) as u128 };
    px[WEGLD as usize] = j(rng, 35.0);
    px[USDC as usize] = (WAD as f64 * (0.995 + rng.unit() * 0.01)) as u128;
    px[USDT as usize] = (WAD as f64 * (0.995 + rng.unit() * 0.01)) as u128;
    px[BTC as usize] = j(rng, 60_000.0);
    px[XOXNO as usize] = j(rng, 0.02);
    px[UTK as usize] = j(rng, 0.05);
    let micro = rng.pct(p.micro_pct);
    if micro {
        px[UTK as usize] = j(rng, 4e-9);
    }
    let mut rates = vec![0u128; NTOK];
    for t in [XEGLD, LEGLD, LXOXNO] {
        rates[t as usize] = WAD + rng.u128_below(WAD / 2);
    }
    // market set
    let mut pool: Vec<u8> = vec![WEGLD, USDC];
    if micro {
        pool.push(UTK);
    }
    let derived = rng.pct(p.derived_pct);
    let mut cand: Vec<u8> = vec![USDT, BTC, XOXNO, UTK];
    if derived {
        cand.extend([XEGLD, LEGLD, LXOXNO, LPA, LPB]);
    }
    let n = rng.range(1, 4);
    for _ in 0..n {
        let t = *rng.pick(&cand);
        if !pool.contains(&t) {
            pool.push(t);
        }
    }
    let iso_tok = if rng.pct(p.iso_pct) { Some(*rng.pick(&pool)) } else { None };
    let sil_tok = if rng.pct(p.siloed_pct) { Some(*rng.pick(&pool)) } else { None };
    let markets: Vec<MarketCfg> = pool
        .iter()
        .map(|t| {
            let u = usd_of(&px, &rates, *t);
            MarketCfg {
                tok: *t,
                rate: fill_rate(rng),
                ac: gen_asset(rng, p, u, tdec(*t), Some(*t) == iso_tok, Some(*t) == sil_tok),
            }
        })
        .collect();
    let finite = rng.pct(p.stale_pct);
    let stale = if finite { *rng.pick(&[120u64, 300, 900, 3600]) } else { 4_000_000_000 };
    let oracles = (0..NTOK)
        .map(|_| {
            let first = *rng.pick(&[50u64, 100, 200, 300]);
            let last = (first + *rng.pick(&[0u64, 100, 300, 700])).max(150);
            OracleCfg {
                method: *rng.pick(&[1u8, 3, 4, 4, 4]),
                first,
                last,
                stale: if finite && rng.pct(30) { stale * 3 } else { stale },
            }
        })
        .collect();
    let mut emodes = vec![];
    if rng.pct(p.emode_pct) {
        for _ in 0..rng.range(1, 2) {
            let ltv = rng.range(80, 94) * 100;
            let mut assets = vec![];
            for t in &pool {
                if rng.pct(65) {
                    assets.push((*t, rng.pct(85), rng.pct(85)));
                }
            }
            emodes.push(EModeCfg { ltv, lt: ltv + 100 + rng.below(300), bonus: *rng.pick(&[50u64, 100, 200, 400, 1500, 1900]), assets });
        }
    }
    let small = rng.pct(p.limit_small_pct);
    let quorum = if rng.pct(p.multi_quorum_pct) { rng.range(2, 3) as u8 } else { 1 };
    let flip = rng.below(8) as u8;
    let native = rng.pct(30);
    Cfg {
        t0: 1_700_000_000,
        markets,
        oracles,
        emodes,
        borrow_limit: if small { rng.range(1, 2) as u8 } else { 10 },
        supply_limit: if small { rng.range(1, 2) as u8 } else { 10 },
        users: rng.range(3, 5) as u8,
        nodes: quorum + rng.below(3) as u8,
        quorum,
        px,
        rates,
        flip,
        native,
    }
}

#[derive(Default, Clone, Debug)]
pub struct FaultStats(pub BTreeMap<&'static str, u64>);
impl FaultStats {
    pub fn hit(&mut self, k: &'static str) {
        *self.0.entry(k).or_insert(0) += 1;
    }
}

pub struct Gen {
    pub rng: Rng,
    pub p: Profile,
    pub w: [u32; NK],
    pub queue: VecDeque<Step>,
    pub pending: Vec<(u32, Step)>,
    todo: VecDeque<Todo>,
    focus: Option<u64>,
    /// market whose cap a scene is testing
    capped: Option<u8>,
    pub n: u32,
    pub usd: Vec<u128>,
    pub rates: Vec<u128>,
    pub faults: FaultStats,
    pub seeded: bool,
    pub dex_follow: bool,
    pub created: u64,
}

impl Gen {
    pub fn new(mut rng: Rng, p: Profile, cfg: &Cfg) -> Gen {
        let mut w = p.w;
        if p.swarm {
            for x in w.iter_mut() {
                match rng.below(6) {
                    0 => *x = *x / 4,
                    1 => *x = *x * 3,
                    _ => {}
                }
            }
        }
        let dex_follow = rng.pct(p.dex_follow);
        Gen {
            rng,
            p,
            w,
            queue: VecDeque::new(),
            todo: VecDeque::new(),
            focus: None,
            capped: None,
            pending: vec![],
            n: 0,
            usd: cfg.px.clone(),
            rates: cfg.rates.clone(),
            faults: FaultStats::default(),
            seeded: false,
            dex_follow,
            created: 0,
        }
    }

    pub fn usd_f(&self, t: u8) -> f64 {
        usd_of(&self.usd, &self.rates, t)
    }
    fn raw_for_usd(&self, t: u8, v: f64) -> u128 {
        let x = v / self.usd_f(t) * 10f64.powi(tdec(t) as i32);
        (x as u128).max(1)
    }
    fn some_amount(&mut self, t: u8) -> u128 {
        if self.rng.pct(self.p.dust_pct) {
            return self.rng.range(1, 2000) as u128;
        }
        let v = 10f64.powf(0.5 + self.rng.unit() * 5.5);
        let a = self.raw_for_usd(t, v);
        a + self.rng.below(1000) as u128
    }
    fn user(&mut self, w: &World) -> u8 {
        self.rng.range(1, w.cfg.users as u64) as u8
    }
    fn tok(&mut self, w: &World) -> u8 {
        let v: Vec<u8> = w.pools.keys().cloned().collect();
        *self.rng.pick(&v)
    }
    fn tx(from: u8, op: Op) -> Step {
        Step::Tx { from, op, abort: None }
    }

    /// fresh prices from a quorum of nodes, DEX quotes following if they do in this run
    pub fn feed_steps(&mut self, w: &World, spec: &Spec, dex: bool) -> Vec<Step> {
        let now = w.ch.now();
        let mut v = vec![];
        let nodes: Vec<u8> = spec.agg.nodes.keys().cloned().collect();
        let q = spec.agg.quorum.max(1) as usize;
        for n in nodes.iter().take(q.min(nodes.len())) {
            let subs = FEEDS.iter().map(|t| (*t, now, self.usd[*t as usize])).collect();
            v.push(Self::tx(NODE0 + n, Op::SubmitBatch { subs }));
        }
        if dex {
            let px = self.usd.clone();
            for t in DEXED {
                let (num, den) = fair_dex(&px, t);
                if w.env.dex.get(&t) != Some(&Some((num, den))) {
                    v.push(Step::Dex { tok: t, num, den });
                }
            }
            for t in [LPA, LPB] {
                if w.pools.contains_key(&t) {
                    let (r0, r1, s) = fair_lp(&px, &self.rates, t);
                    v.push(Step::LpRes { tok: t, r0, r1, supply: s });
                }
            }
        }
        v
    }

    fn egld_px(&self, w: &mut World, t: u8) -> Option<BigInt> {
        w.px_egld(t)
    }

    pub fn prices(&self, w: &mut World) -> BTreeMap<u8, BigInt> {
        let ts: Vec<u8> = w.pools.keys().cloned().collect();
        ts.into_iter().filter_map(|t| self.egld_px(w, t).map(|p| (t, p))).collect()
    }

    fn own_acct<'a>(&mut self, s: &'a Snap) -> Option<&'a Acct> {
        let v: Vec<&Acct> = s.accts.values().filter(|a| a.owner.is_some()).collect();
        if v.is_empty() {
            return None;
        }
        Some(self.pick_acct(&v))
    }
    fn pick_acct<'a>(&mut self, v: &[&'a Acct]) -> &'a Acct {
        if let Some(a) = v.iter().find(|a| Some(a.nonce) == self.focus) {
            if self.rng.pct(90) {
                return a;
            }
        }
        v[self.rng.below(v.len() as u64) as usize]
    }
    fn shuffle(&mut self, v: &mut Vec<u64>) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.rng.below(i as u64 + 1) as usize);
        }
    }
    /// a token's price and those of the tokens priced through it
    fn base_of(t: u8) -> Option<u8> {
        match t {
            XEGLD | LEGLD => Some(WEGLD),
            LXOXNO => Some(XOXNO),
            LPA | LPB => None,
            x => Some(x),
        }
    }

    /// A scripted shape of a story; every move is drawn when its turn comes.
    fn g_scene(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let iso = spec.acs.values().any(|a| a.isolated) && self.rng.pct(if self.p.iso_pct == 100 { 75 } else { 30 });
        let em = !iso && spec.last_em > 0 && self.rng.pct(35);
        let mut v = vec![Todo::Fresh(iso, em)];
        if self.rng.pct(15) {
            v.push(Todo::Dust);
        }
        let kind = if iso && self.rng.pct(15) {
            19
        } else if self.p.mid_move > 0 && self.rng.pct(50) {
            17
        } else {
            self.rng.below(22)
        };
        match kind {
            0..=3 => {
                // ruin and write-off
                let drain = self.rng.pct(15);
                for _ in 0..self.rng.range(!drain as u64, if drain { 1 } else { 3 }) {
                    v.push(Todo::Make(K::Borrow));
                }
                if drain {
                    v.push(Todo::Drain);
                }
                if self.rng.pct(50) {
                    v.push(Todo::Gap);
                }
                if self.rng.pct(40) {
                    v.push(Todo::Make(K::Crash));
                    for _ in 0..self.rng.below(3) {
                        v.push(Todo::Make(K::Liquidate));
                    }
                }
                v.push(Todo::Ruin);
                if self.rng.pct(30) {
                    v.push(Todo::Make(K::Liquidate));
                }
                v.push(Todo::Make(K::Clean));
                if self.rng.pct(40) {
                    v.push(Todo::Make(K::Claim));
                }
            }
            4..=6 => {
                // several debts, several liquidations
                for _ in 0..self.rng.range(1, 4) {
                    v.push(Todo::Make(K::Borrow));
                }
                for _ in 0..self.rng.range(1, 2) {
                    if self.rng.pct(40) {
                        v.push(Todo::Gap);
                    }
                    v.push(Todo::Make(K::Crash));
                    for _ in 0..self.rng.range(1, 3) {
                        v.push(Todo::Make(K::Liquidate));
                    }
                }
            }
            7..=8 => {
                // terms change under open accounts
                if self.rng.pct(60) {
                    v.push(Todo::Fresh(false, spec.last_em > 0 && self.rng.pct(50)));
                }
                if self.rng.pct(60) {
                    v.push(Todo::Make(K::Borrow));
                }
                for _ in 0..self.rng.range(1, 2) {
                    v.push(if spec.last_em > 0 && self.rng.pct(30) { Todo::Make(K::Emode) } else { Todo::Edit });
                    v.push(Todo::Thr);
                    if self.rng.pct(40) {
                        v.push(Todo::Make(K::Supply));
                    }
                    if self.rng.pct(30) {
                        v.push(Todo::Make(K::Crash));
                        v.push(Todo::Thr);
                    }
                }
            }
            9 => {
                v = vec![Todo::Gap, Todo::Make(if self.rng.pct(50) { K::PoolParams } else { K::UpgradePool }), Todo::Make(K::UpdIdx), Todo::Gap, Todo::Make(K::UpdIdx)];
            }
            10 => {
                // restructuring
                v.push(Todo::Make(K::Borrow));
                for _ in 0..self.rng.range(2, 5) {
                    let k = *self.rng.pick(&[K::SwapDebt, K::SwapColl, K::RepayColl, K::Borrow, K::Repay, K::Withdraw]);
                    v.push(Todo::Make(k));
                    if self.rng.pct(25) {
                        v.push(Todo::Gap);
                    }
                }
            }
            12..=13 => {
                v.push(Todo::Loans);
                if self.rng.pct(30) {
                    v.push(Todo::Gap);
                }
                v.push(Todo::Graze);
                v.push(Todo::LiqAll);
                if self.rng.pct(50) {
                    v.push(Todo::Graze);
                    v.push(Todo::LiqAll);
                }
            }
            14..=15 => {
                let b = self.rng.pct(40);
                if b {
                    v.push(Todo::Make(K::Borrow));
                }
                v.push(Todo::Cap(b));
                if self.rng.pct(85) {
                    v.push(Todo::Gap);
                }
                for _ in 0..self.rng.range(1, 3) {
                    v.push(Todo::HitCap(b));
                }
            }
            16 => {
                if self.rng.pct(50) {
                    v.push(Todo::Loans);
                    v.push(Todo::Silence);
                }
                for _ in 0..self.rng.range(1, 2) {
                    v.push(if self.rng.pct(60) { Todo::Silo } else { Todo::Make(K::Borrow) });
                }
                for _ in 0..self.rng.range(1, 3) {
                    let k = *self.rng.pick(&[K::SwapDebt, K::SwapDebt, K::Borrow, K::Repay]);
                    v.push(if self.rng.pct(50) { Todo::Silo } else { Todo::Make(k) });
                }
            }
            17 => {
                // on the edge
                if self.rng.pct(50) {
                    v.push(Todo::Loans);
                } else {
                    v.push(Todo::Make(K::Borrow));
                }
                v.push(Todo::Edge);
                for _ in 0..self.rng.range(1, 3) {
                    let k = *self.rng.pick(&[K::SwapDebt, K::SwapColl, K::SwapColl, K::RepayColl, K::Borrow, K::Withdraw, K::Multiply]);
                    v.push(if self.p.mid_move > 0 && self.rng.pct(60) { Todo::Shift(k) } else { Todo::Make(k) });
                }
            }
            18 => {
                // no longer accepted
                v.push(if self.rng.pct(50) { Todo::Loans } else { Todo::Make(K::Borrow) });
                v.push(Todo::Delist);
                for _ in 0..self.rng.range(2, 4) {
                    let k = *self.rng.pick(&[K::Repay, K::Repay, K::Withdraw, K::Liquidate, K::SwapDebt, K::RepayColl, K::Supply]);
                    v.push(Todo::Make(k));
                }
                if self.rng.pct(40) {
                    v.push(Todo::Ruin);
                    v.push(Todo::Make(K::Clean));
                }
            }
            19 => {
                // almost repaid
                v.push(if self.rng.pct(40) { Todo::Loans } else { Todo::Make(K::Borrow) });
                if self.rng.pct(30) {
                    v.push(Todo::Gap);
                }
                v.push(Todo::Tail);
                for _ in 0..self.rng.range(1, 3) {
                    let k = *self.rng.pick(&[K::Repay, K::Borrow, K::Withdraw, K::RepayColl]);
                    v.push(if self.rng.pct(40) { Todo::Tail } else { Todo::Make(k) });
                }
            }
            _ => {
                // a whole life
                if self.rng.pct(70) {
                    v.push(Todo::Make(K::Borrow));
                    v.push(Todo::Gap);
                    v.push(Todo::Make(K::Repay));
                    v.push(Todo::Make(K::Repay));
                }
                if self.rng.pct(40) {
                    v.push(Todo::Make(K::MoveNft));
                }
                for _ in 0..3 {
                    v.push(Todo::Make(K::Withdraw));
                }
            }
        }
        v.push(Todo::Unfocus);
        self.todo.extend(v);
        while let Some(t) = self.todo.pop_front() {
            if let Some(st) = self.do_todo(t, w, spec, s) {
                return Some(st);
            }
        }
        None
    }
    fn do_todo(&mut self, t: Todo, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        match t {
            Todo::Unfocus => {
                self.focus = None;
                None
            }
            Todo::Make(k) => self.make(k as usize, w, spec, s),
            Todo::Shift(k) => {
                let mut st = self.make(k as usize, w, spec, s)?;
                let held: Vec<u8> = s.accts.get(&self.focus?)?.dep.keys().cloned().filter(|t| matches!(*t, XEGLD | LEGLD | LXOXNO | LPA | LPB)).collect();
                if held.is_empty() {
                    return Some(st);
                }
                let mut t = *self.rng.pick(&held);
                let k = self.rng.range(8_500, 9_950) as u128;
                if let Step::Tx { op, .. } = &mut st {
                    // a part of what falls is given away just before
                    if let Op::SwapColl { nft, cur, amount, new, steps, .. } = op {
                        let a = s.accts.get(nft)?;
                        if a.dep.contains_key(&t) && self.rng.pct(70) {
                            *cur = t;
                            let full = model::down(&model::amt(&a.dep[&t].scaled, &s.pools[&t].si), t);
                            let part = self.rng.range(2, 45);
                            *amount = self.scale(&full, part, 100).max(1);
                            let ok: Vec<u8> = spec
                                .acs
                                .iter()
                                .filter(|(x, c)| **x != t && !c.isolated && s.pools.contains_key(x) && spec.emodes.get(&a.emode).map(|e| e.assets.get(x).map(|f| f.0).unwrap_or(false)).unwrap_or(c.collat))
                                .map(|x| *x.0)
                                .collect();
                            if !ok.is_empty() {
                                *new = *self.rng.pick(&ok);
                            }
                            let fair = self.swap_out(t, *amount, *new);
                            let g = self.rng.range(985, 1010) as u128;
                            *steps = vec![Act::Send(vec![(*new, mul_div(fair, g, 1000).max(1))])];
                        } else if held.contains(cur) {
                            t = *cur;
                        }
                    }
                    let prog = match op {
                        Op::Multiply { steps, .. } | Op::RepayColl { steps, .. } => steps.as_mut(),
                        Op::SwapDebt { steps, .. } | Op::SwapColl { steps, .. } => Some(steps),
                        _ => None,
                    };
                    if let Some(p) = prog {
                        self.faults.hit("price source moves during the swap");
                        p.retain(|a| !matches!(a, Act::Move { .. }));
                        let v = match t {
                            LPA | LPB => {
                                let (a, b, s) = fair_lp(&self.usd, &self.rates, t);
                                (mul_div(a, k, 10_000), mul_div(b, k, 10_000), s)
                            }
                            _ => (mul_div(self.rates[t as usize], k, 10_000).max(1), 0, 0),
                        };
                        p.insert(0, Act::Move { tok: t, v });
                    }
                }
                Some(st)
            }
            Todo::Gap => {
                let d = self.log_jump().max(self.rng.range(1, 86_400)).min(self.p.max_jump.max(1));
                Some(Step::Adv(d))
            }
            Todo::Fresh(iso, em) => {
                if s.accts.len() > 14 {
                    return None;
                }
                let u = self.user(w);
                let ok: Vec<u8> = spec.acs.iter().filter(|(_, a)| a.isolated == iso && a.collat).map(|x| *x.0).collect();
                if ok.is_empty() {
                    return None;
                }
                let emode = if em { Some(self.rng.range(1, spec.last_em as u64) as u8) } else { None };
                let ok: Vec<u8> = match emode.and_then(|e| spec.emodes.get(&e)) {
                    Some(e) => ok.into_iter().filter(|t| e.assets.get(t).map(|x| x.0).unwrap_or(false)).collect(),
                    None => ok,
                };
                if ok.is_empty() {
                    return None;
                }
                let n = if iso { 1 } else { self.rng.range(1, 3) };
                let mut pays: Vec<(u8, u128)> = vec![];
                for _ in 0..n {
                    let t = *self.rng.pick(&ok);
                    if pays.iter().all(|p| p.0 != t) {
                        let v = 10f64.powf(0.7 + self.rng.unit() * 4.0);
                        pays.push((t, self.raw_for_usd(t, v)));
                    }
                }
                self.focus = Some(s.last_nonce + 1);
                Some(Self::tx(u, Op::Supply { nft: None, to: None, emode, pays }))
            }
            Todo::Ruin => {
                let a = s.accts.get(&self.focus?)?;
                let val: f64 = a.dep.iter().map(|(t, p)| self.val(s, *t, &p.scaled, false)).sum();
                let left = 10f64.powf(self.rng.unit() * 3.0 - 2.0);
                let k = left / val.max(1e-9);
                let mut done = vec![];
                for t in a.dep.keys() {
                    if let Some(b) = Self::base_of(*t) {
                        if !done.contains(&b) {
                            done.push(b);
                            let cur = self.usd[b as usize] as f64;
                            self.usd[b as usize] = (cur * k.clamp(1e-7, 10.0)).max(1e9f64.min(cur)).min(1e28) as u128;
                        }
                    }
                }
                let follow = self.dex_follow;
                let st = self.feed_steps(w, spec, follow);
                self.queue.extend(st);
                self.queue.pop_front()
            }
            Todo::Edit => {
                let held: Vec<u8> = self.focus.and_then(|n| s.accts.get(&n)).map(|a| a.dep.keys().chain(a.bor.keys()).cloned().collect()).unwrap_or_default();
                let t = if held.is_empty() { self.tok(w) } else { *self.rng.pick(&held) };
                let cur = spec.acs.get(&t)?.clone();
                let mut ac = cur.clone();
                let (p, u) = (self.p.clone(), self.usd_f(t));
                let n = gen_asset(&mut self.rng, &p, u, tdec(t), cur.isolated, cur.siloed);
                ac.ltv = n.ltv;
                ac.lt = n.lt;
                ac.bonus = n.bonus;
                ac.fee = n.fee;
                Some(Self::tx(OWNER, Op::EditAsset { tok: t, ac }))
            }
            Todo::Loans => {
                let a = s.accts.get(&self.focus?)?.clone();
                let o = a.owner?;
                let px = self.prices(w);
                let acc = model::accrue_all(s, &spec.rates, w.ch.now_ms());
                let r = model::risk(&a, &acc, &px)?;
                let room = &r.ltv - &r.debt;
                if !room.is_positive() {
                    return None;
                }
                let mut ts: Vec<u64> = spec
                    .acs
                    .iter()
                    .filter(|(t, c)| {
                        s.pools.contains_key(t)
                            && !c.siloed
                            && match spec.emodes.get(&a.emode) {
                                Some(e) => e.assets.get(t).map(|x| x.1).unwrap_or(false),
                                None => c.borrow,
                            }
                    })
                    .map(|x| *x.0 as u64)
                    .collect();
                self.shuffle(&mut ts);
                let n = self.rng.range(2, 3) as usize;
                ts.truncate(n);
                let n = ts.len() as u64;
                let mut b = vec![];
                for t in ts {
                    let t = t as u8;
                    let pt = px.get(&t)?;
                    let mx = model::down(&(&room * model::wad() / pt), t);
                    let cash = s.pools[&t].bal.clone();
                    let k = self.rng.range(20, 98);
                    let x = self.scale(&mx, k, 100 * n).min(self.scale(&cash, 9, 10)).max(1);
                    b.push((t, x));
                }
                if b.is_empty() {
                    return None;
                }
                Some(Self::tx(o, Op::Borrow { nft: a.nonce, b }))
            }
            Todo::Drain => {
                let a = s.accts.get(&self.focus?)?.clone();
                let o = a.owner?;
                let c = *a.dep.keys().find(|t| spec.acs.get(t).map(|x| x.supply_cap == 0).unwrap_or(false))?;
                let mut ts: Vec<u64> = spec
                    .acs
                    .iter()
                    .filter(|(t, x)| {
                        **t != c
                            && x.borrow
                            && x.borrow_cap == 0
                            && !x.siloed
                            && (!a.iso || x.iso_borrow)
                            && s.pools.get(t).map(|p| p.bal.is_positive()).unwrap_or(false)
                    })
                    .map(|x| *x.0 as u64)
                    .collect();
                self.shuffle(&mut ts);
                let t = *ts.first()? as u8;
                let cash = s.pools[&t].bal.to_u128()?;
                let usd = cash as f64 / 10f64.powi(tdec(t) as i32) * self.usd_f(t);
                let add = self.raw_for_usd(c, usd * 4.0 + 10.0);
                self.queue.push_back(Self::tx(o, Op::Borrow { nft: a.nonce, b: vec![(t, cash)] }));
                Some(Self::tx(o, Op::Supply { nft: Some(a.nonce), to: None, emode: None, pays: vec![(c, add)] }))
            }
            Todo::Graze | Todo::Edge => {
                let above = matches!(t, Todo::Edge);
                let a = s.accts.get(&self.focus?)?;
                let px = self.prices(w);
                let acc = model::accrue_all(s, &spec.rates, w.ch.now_ms());
                let r = model::risk(a, &acc, &px)?;
                if r.debt.is_zero() {
                    return None;
                }
                let owed: Vec<u8> = a.bor.keys().filter_map(|t| Self::base_of(*t)).collect();
                let mut bases: Vec<u8> = a.dep.keys().filter_map(|t| Self::base_of(*t)).collect();
                bases.sort();
                bases.dedup();
                let free: Vec<u8> = bases.iter().filter(|t| !owed.contains(t)).cloned().collect();
                let set = if free.is_empty() { bases } else { free };
                let part: f64 = a
                    .dep
                    .iter()
                    .filter(|(t, _)| Self::base_of(**t).map(|b| set.contains(&b)).unwrap_or(false))
                    .map(|(t, p)| f(&model::amt(&p.scaled, &acc[t].si)) / 1e27 * px.get(t).map(f).unwrap_or(0.0) / 1e18 * p.lt.to_u64().unwrap_or(0) as f64 / 1e4)
                    .sum();
                let weighted = f(&r.weighted) / 1e27;
                let debt = f(&r.debt) / 1e27;
                let goal = if above { 1.0002 + 0.03 * self.rng.unit().powi(2) } else { 0.9 + 0.0995 * self.rng.unit() };
                let k = 1.0 - (weighted - goal * debt) / part.max(1e-18);
                for b in set {
                    let cur = self.usd[b as usize] as f64;
                    self.usd[b as usize] = (cur * k.clamp(1e-6, 1e6)).max(1e9f64.min(cur)).min(1e28) as u128;
                }
                let follow = self.dex_follow;
                let st = self.feed_steps(w, spec, follow);
                self.queue.extend(st);
                self.queue.pop_front()
            }
            Todo::Dust => {
                let a = s.accts.get(&self.focus?)?.clone();
                if a.iso || a.mode >= 2 && self.rng.pct(50) {
                    return None;
                }
                let t = self.tok(w);
                let x = 10f64.powf(self.rng.unit() * 3.5) as u128;
                Some(Self::tx(a.owner?, Op::Supply { nft: Some(a.nonce), to: None, emode: None, pays: vec![(t, x.max(1))] }))
            }
            Todo::Delist => {
                let a = s.accts.get(&self.focus?)?.clone();
                let ts: Vec<u8> = a.bor.keys().chain(a.dep.keys()).cloned().collect();
                if ts.is_empty() {
                    return None;
                }
                let t = *self.rng.pick(&ts);
                if a.emode > 0 && self.rng.pct(50) {
                    return Some(Self::tx(OWNER, if self.rng.pct(50) { Op::EmRemoveAsset { tok: t, id: a.emode } } else { Op::EmEditAsset { tok: t, id: a.emode, collat: false, borrow: false } }));
                }
                let mut ac = spec.acs.get(&t)?.clone();
                match self.rng.below(4) {
                    0 => ac.collat = false,
                    1 => ac.flash = false,
                    2 => {
                        ac.borrow = false;
                        ac.collat = false;
                    }
                    _ => ac.borrow = false,
                }
                if !ac.borrow {
                    ac.iso_borrow = false;
                }
                Some(Self::tx(OWNER, Op::EditAsset { tok: t, ac }))
            }
            Todo::Silence => {
                let a = s.accts.get(&self.focus?)?.clone();
                let ts: Vec<u8> = a.bor.keys().cloned().collect();
                if ts.is_empty() {
                    return None;
                }
                let t = *self.rng.pick(&ts);
                let mut ac = spec.acs.get(&t)?.clone();
                ac.siloed = !ac.siloed;
                Some(Self::tx(OWNER, Op::EditAsset { tok: t, ac }))
            }
            Todo::Tail => {
                let a = s.accts.get(&self.focus?)?.clone();
                let ts: Vec<u8> = a.bor.keys().cloned().collect();
                if ts.is_empty() {
                    return None;
                }
                let t = *self.rng.pick(&ts);
                let d = self.debt_raw(w, spec.rates.get(&t), s, t, &a.bor[&t]).to_u128().unwrap_or(1);
                let v = 10f64.powf(self.rng.unit() * 2.5 - 0.7);
                if let (true, Some(it)) = (a.iso, a.iso_tok) {
                    // leave that much on the tracker of the isolated asset
                    let track = s.iso_debt.get(&it).map(f).unwrap_or(0.0) / 1e18;
                    let pay = self.raw_for_usd(t, (track - v).max(0.0));
                    if pay > 0 && pay < d {
                        return Some(Self::tx(a.owner?, Op::Repay { nonce: a.nonce, pays: vec![(t, pay)] }));
                    }
                }
                let left = self.raw_for_usd(t, v);
                if left >= d {
                    return None;
                }
                Some(Self::tx(a.owner?, Op::Repay { nonce: a.nonce, pays: vec![(t, d - left)] }))
            }
            Todo::LiqAll => {
                let a = s.accts.get(&self.focus?)?.clone();
                let acc = model::accrue_all(s, &spec.rates, w.ch.now_ms());
                let mut ts: Vec<u64> = a.bor.keys().map(|t| *t as u64).collect();
                self.shuffle(&mut ts);
                let mut pays = vec![];
                for t in ts {
                    let t = t as u8;
                    let d = model::down(&model::amt(&a.bor[&t].scaled, &acc[&t].bi), t);
                    let k = if self.rng.pct(70) { self.rng.range(95, 130) } else { self.rng.range(5, 100) };
                    pays.push((t, self.scale(&d, k, 100).max(1)));
                }
                if pays.is_empty() {
                    return None;
                }
                let liq = self.user(w);
                Some(Self::tx(liq, Op::Liquidate { nonce: a.nonce, pays }))
            }
            Todo::Cap(borrow) => {
                let mut ts: Vec<u8> = s.pools.iter().filter(|(_, p)| !p.borrowed.is_zero()).map(|x| *x.0).collect();
                if ts.is_empty() {
                    ts = s.pools.keys().cloned().collect();
                }
                let t = *self.rng.pick(&ts);
                self.capped = Some(t);
                let mut ac = spec.acs.get(&t)?.clone();
                let acc = model::accrue(&s.pools[&t], &spec.rates[&t], w.ch.now_ms());
                let cur = if borrow { model::down(&model::amt(&acc.borrowed, &acc.bi), t) } else { model::down(&model::amt(&acc.supplied, &acc.si), t) };
                let k = self.rng.range(10_001, 13_000);
                let cap = self.scale(&cur, k, 10_000).max(1);
                if borrow {
                    ac.borrow_cap = cap;
                } else {
                    ac.supply_cap = cap;
                }
                Some(Self::tx(OWNER, Op::EditAsset { tok: t, ac }))
            }
            Todo::HitCap(borrow) => {
                let t = self.capped?;
                let ac = spec.acs.get(&t)?;
                let cap = if borrow { ac.borrow_cap } else { ac.supply_cap };
                let p = s.pools.get(&t)?;
                let acc = model::accrue(p, &spec.rates[&t], w.ch.now_ms());
                let now = if borrow { model::down(&model::amt(&acc.borrowed, &acc.bi), t) } else { model::down(&model::amt(&acc.supplied, &acc.si), t) };
                let then = if borrow { model::down(&model::amt(&p.borrowed, &p.bi), t) } else { model::down(&model::amt(&p.supplied, &p.si), t) };
                let (r1, r0) = ((BigInt::from(cap) - now).to_u128().unwrap_or(1), (BigInt::from(cap) - then).to_u128().unwrap_or(1));
                let x = match self.rng.below(4) {
                    0 => r1.saturating_sub(self.rng.below(3) as u128),
                    1 => r1 + self.rng.below(3) as u128,
                    2 => r0,
                    _ => r1 + mul_div(r0.saturating_sub(r1), self.rng.range(1, 99) as u128, 100),
                }
                .max(1);
                if borrow {
                    let a = self.own_acct(s)?.clone();
                    Some(Self::tx(a.owner?, Op::Borrow { nft: a.nonce, b: vec![(t, x)] }))
                } else {
                    let u = self.user(w);
                    let own = s.accts.values().find(|a| a.owner == Some(u) && !a.iso).map(|a| a.nonce);
                    Some(Self::tx(u, Op::Supply { nft: own, to: None, emode: None, pays: vec![(t, x)] }))
                }
            }
            Todo::Silo => {
                let a = s.accts.get(&self.focus?)?.clone();
                let o = a.owner?;
                let sil: Vec<u8> = spec.acs.iter().filter(|x| x.1.siloed && s.pools.contains_key(x.0)).map(|x| *x.0).collect();
                if sil.is_empty() {
                    return None;
                }
                let px = self.prices(w);
                let t = *self.rng.pick(&sil);
                if !a.bor.is_empty() && self.rng.pct(60) {
                    let held: Vec<u8> = a.bor.keys().cloned().collect();
                    let hs: Vec<u8> = held.iter().filter(|x| sil.contains(x)).cloned().collect();
                    let old = if !hs.is_empty() && self.rng.pct(60) { *self.rng.pick(&hs) } else { *self.rng.pick(&held) };
                    let new = if sil.contains(&old) { self.tok(w) } else { t };
                    let d = self.debt_raw(w, None, s, old, &a.bor[&old]).to_u128().unwrap_or(1);
                    let k = self.rng.range(10, 100) as u128;
                    let amount = mul_div(self.swap_out(old, d, new), k, 100).max(1);
                    let steps = self.router(w, new, amount, old);
                    return Some(Self::tx(o, Op::SwapDebt { nft: a.nonce, old, amount, new, steps, pays: vec![] }));
                }
                let acc = model::accrue_all(s, &spec.rates, w.ch.now_ms());
                let r = model::risk(&a, &acc, &px)?;
                let mx = model::down(&((&r.ltv - &r.debt).max(BigInt::zero()) * model::wad() / px.get(&t)?), t);
                let cash = s.pools[&t].bal.clone();
                let k = self.rng.range(2, 40);
                let x = self.scale(&mx, k, 100).min(self.scale(&cash, 9, 10)).max(1);
                Some(Self::tx(o, Op::Borrow { nft: a.nonce, b: vec![(t, x)] }))
            }
            Todo::Thr => {
                let held: Vec<u8> = self.focus.and_then(|n| s.accts.get(&n)).map(|a| a.dep.keys().cloned().collect()).unwrap_or_default();
                let t = if held.is_empty() { self.tok(w) } else { *self.rng.pick(&held) };
                let mut ns: Vec<u64> = s.accts.values().filter(|a| a.dep.contains_key(&t)).map(|a| a.nonce).collect();
                if ns.is_empty() {
                    return None;
                }
                self.shuffle(&mut ns);
                let k = self.rng.range(1, 4) as usize;
                ns.truncate(k);
                let u = self.user(w);
                Some(Self::tx(u, Op::UpdThreshold { tok: t, risks: self.rng.pct(50), nonces: ns }))
            }
        }
    }

    fn scale(&mut self, v: &BigInt, num: u64, den: u64) -> u128 {
        (v * BigInt::from(num) / BigInt::from(den)).to_u128().unwrap_or(u128::MAX / 4)
    }

    pub fn next(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Step {
        self.n += 1;
        for t in [XEGLD, LEGLD, LXOXNO] {
            if let Some(r) = w.env.rate.get(&t) {
                self.rates[t as usize] = *r;
            }
        }
        if let Some(x) = self.queue.pop_front() {
            return x;
        }
        if !self.seeded {
            self.seeded = true;
            self.seed_liquidity(w);
            if let Some(x) = self.queue.pop_front() {
                return x;
            }
        }
        // mempool delivery
        if !self.pending.is_empty() && self.rng.pct(50) {
            let due: Vec<usize> =
                (0..self.pending.len()).filter(|i| self.pending[*i].0 <= self.n).collect();
            if !due.is_empty() {
                let i = *self.rng.pick(&due);
                let (_, st) = self.pending.remove(i);
                return st;
            }
        }
        while let Some(t) = self.todo.pop_front() {
            if let Some(st) = self.do_todo(t, w, spec, s) {
                return st;
            }
        }
        // keep the feeds inside their freshness window (unless the oracle is being stalled)
        let egld = spec.agg.rounds.get("EGLD").map(|r| r.ts).unwrap_or(0);
        let stale = spec.oracles.iter().map(|o| o.stale).min().unwrap_or(0);
        if stale < 1_000_000 && w.ch.now() - egld >= stale / 2 && self.rng.pct(85) {
            let v = self.feed_steps(w, spec, self.dex_follow);
            self.queue.extend(v);
            if let Some(x) = self.queue.pop_front() {
                return x;
            }
        }
        for _ in 0..12 {
            let k = self.rng.weighted(&self.w.clone());
            if let Some(st) = self.make(k, w, spec, s) {
                if let Step::Tx { from, op, abort } = st {
                    // network faults apply to client transactions
                    let r = self.rng.below(1000);
                    let st = Step::Tx { from, op, abort };
                    if from < NODE0 && from != OWNER || matches!(st, Step::Tx { from, .. } if from >= NODE0) {
                        if r < self.p.drop {
                            self.faults.hit("tx dropped");
                            continue;
                        }
                        if r < self.p.drop + self.p.delay {
                            self.faults.hit("tx delayed and reordered");
                            let d = self.n + self.rng.range(1, 8) as u32;
                            self.pending.push((d, st));
                            continue;
                        }
                        if r < self.p.drop + self.p.delay + self.p.dup {
                            self.faults.hit("tx duplicated");
                            let d = self.n + self.rng.range(0, 5) as u32;
                            self.pending.push((d, st.clone()));
                            return st;
                        }
                        if r < self.p.drop + self.p.delay + self.p.dup + self.p.abort {
                            self.faults.hit("execution aborted mid-call");
                            if let Step::Tx { from, op, .. } = st {
                                let k = self.rng.range(1, 5) as u32;
                                let exit = self.rng.pct(50);
                                // the client retries right after
                                if self.rng.pct(60) {
                                    self.queue.push_back(Self::tx(from, op.clone()));
                                }
                                return Step::Tx { from, op, abort: Some((k, exit)) };
                            }
                        }
                    }
                    return st;
                } else {
                    return st;
                }
            }
        }
        Step::Adv(6)
    }

    fn seed_liquidity(&mut self, w: &World) {
        let toks: Vec<u8> = w.pools.keys().cloned().collect();
        for t in toks {
            if self.rng.pct(85) {
                let u = self.user(w);
                let v = 10f64.powf(3.5 + self.rng.unit() * 3.5);
                let a = self.raw_for_usd(t, v);
                let emode = if self.rng.pct(20) && !w.cfg.emodes.is_empty() {
                    Some(self.rng.range(1, w.cfg.emodes.len() as u64) as u8)
                } else {
                    None
                };
                self.queue.push_back(Self::tx(u, Op::Supply { nft: None, to: None, emode, pays: vec![(t, a)] }));
            }
        }
    }

    fn log_jump(&mut self) -> u64 {
        let m = (self.p.max_jump.max(2) as f64).ln();
        let lo = 1f64;
        (lo.max((self.rng.unit() * m).exp())) as u64
    }

    pub fn make(&mut self, k: usize, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let kk = |x: K| x as usize == k;
        if kk(K::Adv) {
            let d = match self.rng.below(10) {
                0..=4 => self.rng.range(1, 600),
                5..=6 => self.rng.range(600, 90_000).min(self.p.max_jump),
                _ => self.log_jump(),
            };
            if d > 1_000_000 {
                self.faults.hit("clock jump");
            }
            if self.rng.pct(30) {
                // short rounds: the clock moves by fractions of a second
                self.faults.hit("sub-second block");
                return Some(Step::AdvMs(match self.rng.below(4) {
                    0 => self.rng.range(1, 999),
                    1 => 600,
                    2 => self.rng.range(1, 10) * 600,
                    _ => d.max(1) * 1000 + self.rng.range(1, 999),
                }));
            }
            return Some(Step::Adv(d.max(1)));
        }
        if kk(K::Supply) {
            return self.g_supply(w, spec, s);
        }
        if kk(K::Withdraw) {
            return self.g_withdraw(w, spec, s);
        }
        if kk(K::Borrow) {
            return self.g_borrow(w, spec, s);
        }
        if kk(K::Repay) {
            return self.g_repay(w, s);
        }
        if kk(K::Liquidate) {
            return self.g_liquidate(w, spec, s);
        }
        if kk(K::Flash) {
            return self.g_flash(w, spec, s);
        }
        if kk(K::UpdThr) {
            let t = self.tok(w);
            let mut ns: Vec<u64> = s.accts.keys().cloned().collect();
            if ns.is_empty() {
                return None;
            }
            let cnt = self.rng.range(1, ns.len() as u64) as usize;
            while ns.len() > cnt {
                let i = self.rng.below(ns.len() as u64) as usize;
                ns.remove(i);
            }
            self.shuffle(&mut ns);
            let u = self.user(w);
            return Some(Self::tx(u, Op::UpdThreshold { tok: t, risks: self.rng.pct(55), nonces: ns }));
        }
        if kk(K::UpdIdx) {
            let u = self.user(w);
            let mut v: Vec<u8> = w.pools.keys().cloned().collect();
            if self.rng.pct(50) {
                v = vec![*self.rng.pick(&v)];
            }
            return Some(Self::tx(u, Op::UpdIdx { toks: v }));
        }
        if kk(K::Clean) {
            // prefer accounts under water
            let bad: Vec<u64> = s
                .accts
                .values()
                .filter(|a| {
                    let c: f64 = a.dep.iter().map(|(t, p)| self.val(s, *t, &p.scaled, false)).sum();
                    let d: f64 = a.bor.iter().map(|(t, p)| self.val(s, *t, &p.scaled, true)).sum();
                    d > c && c < 50.0
                })
                .map(|a| a.nonce)
                .collect();
            let n = if self.focus.map(|n| bad.contains(&n)).unwrap_or(false) {
                self.focus.unwrap()
            } else if !bad.is_empty() && self.rng.pct(85) {
                *self.rng.pick(&bad)
            } else {
                let v: Vec<u64> = s.accts.keys().cloned().collect();
                if v.is_empty() || !self.rng.pct(30) {
                    return None;
                }
                *self.rng.pick(&v)
            };
            let u = self.user(w);
            return Some(Self::tx(u, Op::Clean { nonce: n }));
        }
        if kk(K::Multiply) {
            return self.g_multiply(w, spec, s);
        }
        if kk(K::SwapDebt) {
            return self.g_swap_debt(w, s);
        }
        if kk(K::SwapColl) {
            return self.g_swap_coll(w, s);
        }
        if kk(K::RepayColl) {
            return self.g_repay_coll(w, s);
        }
        if kk(K::Claim) {
            let u = self.user(w);
            let mut v: Vec<u8> = w.pools.keys().cloned().collect();
            if self.rng.pct(60) {
                v = vec![*self.rng.pick(&v)];
            }
            return Some(Self::tx(u, Op::Claim { toks: v }));
        }
        if kk(K::Rewards) {
            let t = self.tok(w);
            let p = &s.pools[&t];
            if p.supplied.is_zero() && !self.rng.pct(10) {
                return None;
            }
            let amount = if self.rng.pct(70) {
                let v = model::amt(&p.supplied, &p.si);
                let raw = model::down(&v, t);
                let d = self.rng.range(10, 5000);
                self.scale(&raw, 1, d).max(1)
            } else {
                self.some_amount(t)
            };
            return Some(Self::tx(OWNER, Op::Rewards { tok: t, amount }));
        }
        if kk(K::MoveNft) {
            let a = self.own_acct(s)?;
            let (n, o) = (a.nonce, a.owner?);
            let to = self.user(w);
            if to == o {
                return None;
            }
            return Some(Self::tx(o, Op::MoveNft { nft: n, to }));
        }
        if kk(K::EditAsset) {
            let t = self.tok(w);
            let cur = spec.acs[&t].clone();
            let p = self.p.clone();
            let mut ac = cur.clone();
            match self.rng.below(6) {
                0 => {
                    let u = self.usd_f(t);
                    let n = gen_asset(&mut self.rng, &p, u, tdec(t), cur.isolated, cur.siloed);
                    ac.ltv = n.ltv;
                    ac.lt = n.lt;
                }
                1 => {
                    let u = self.usd_f(t);
                    let n = gen_asset(&mut self.rng, &p, u, tdec(t), cur.isolated, cur.siloed);
                    ac.bonus = n.bonus;
                    ac.fee = n.fee;
                    ac.flash_fee = n.flash_fee;
                }
                2 => {
                    ac.collat = self.rng.pct(60);
                    ac.borrow = self.rng.pct(60);
                }
                3 => {
                    ac.flash = self.rng.pct(60);
                    ac.iso_borrow = self.rng.pct(60);
                    if cur.isolated {
                        ac.ceiling = (10f64.powf(1.0 + self.rng.unit() * 5.5) as u128) * WAD;
                    }
                }
                4 => {
                    ac.siloed = if self.rng.pct(p.siloed_pct.min(40)) { !cur.siloed } else { cur.siloed };
                }
                _ => {
                    let u = self.usd_f(t);
                    let n = gen_asset(&mut self.rng, &p, u, tdec(t), cur.isolated, cur.siloed);
                    ac.borrow_cap = n.borrow_cap;
                    ac.supply_cap = n.supply_cap;
                    if self.rng.pct(p.caps_pct) {
                        // a cap just around what is already there
                        let pl = &s.pools[&t];
                        let sup = model::down(&model::amt(&pl.supplied, &pl.si), t);
                        let bor = model::down(&model::amt(&pl.borrowed, &pl.bi), t);
                        let m = self.rng.range(90, 120);
                        ac.supply_cap = self.scale(&sup, m, 100).max(1);
                        ac.borrow_cap = self.scale(&bor, m, 100).max(1);
                    }
                }
            }
            if self.rng.pct(p.bad_cfg) {
                match self.rng.below(4) {
                    0 => ac.lt = ac.ltv,
                    1 => ac.lt = ac.ltv.saturating_sub(1 + self.rng.below(3000)),
                    2 => {
                        ac.ltv = 0;
                        ac.lt = 0;
                    }
                    _ => {
                        ac.ltv = 0;
                        ac.lt = 1;
                    }
                }
            }
            let t = if self.rng.pct(p.bad_cfg / 8) { self.no_market(w) } else { t };
            return Some(Self::tx(OWNER, Op::EditAsset { tok: t, ac }));
        }
        if kk(K::Emode) {
            return self.g_emode(w, spec);
        }
        if kk(K::Limits) {
            let (b, u) = (self.rng.range(1, 4) as u8, self.rng.range(1, 4) as u8);
            return Some(Self::tx(OWNER, Op::Limits { borrow: b, supply: u }));
        }
        if kk(K::Tolerance) {
            let t = if self.rng.pct(self.p.bad_cfg / 3) { JUNK } else { self.rng.below(NTOK as u64) as u8 };
            let (first, last) = if self.rng.pct(self.p.bad_cfg.max(5)) {
                (*self.rng.pick(&[0u64, 49, 50, 5000, 5001, 300]), *self.rng.pick(&[0u64, 149, 150, 10000, 10001, 200]))
            } else {
                let f1 = *self.rng.pick(&[50u64, 100, 150, 200, 400]);
                (f1, (f1 + *self.rng.pick(&[0u64, 100, 500])).max(150))
            };
            return Some(Self::tx(OWNER, Op::Tolerance { tok: t, first, last }));
        }
        if kk(K::PoolParams) {
            let t = if self.rng.pct(self.p.bad_cfg / 2) { self.no_market(w) } else { self.tok(w) };
            let mut r = fill_rate(&mut self.rng);
            if self.rng.pct(self.p.bad_cfg) {
                self.break_rate(&mut r);
            }
            return Some(Self::tx(OWNER, Op::PoolParams { tok: t, r }));
        }
        if kk(K::CreateMarket) {
            let missing: Vec<u8> = (0..NTOK as u8).filter(|t| !w.pools.contains_key(t)).collect();
            // an asset never gets a second market
            let again = self.rng.pct(self.p.bad_cfg);
            if missing.is_empty() && !again {
                return None;
            }
            let t = if again { self.tok(w) } else { *self.rng.pick(&missing) };
            let mut r = fill_rate(&mut self.rng);
            let p = self.p.clone();
            let u = self.usd_f(t);
            let mut ac = gen_asset(&mut self.rng, &p, u, tdec(t), false, false);
            if self.rng.pct(self.p.bad_cfg) {
                self.break_rate(&mut r);
            }
            if self.rng.pct(self.p.bad_cfg) {
                ac.lt = ac.ltv.saturating_sub(self.rng.below(2));
            }
            return Some(Self::tx(OWNER, Op::CreateMarket { m: MarketCfg { tok: t, rate: r, ac } }));
        }
        if kk(K::Pause) {
            if spec.paused {
                return Some(Self::tx(OWNER, Op::UnpauseCtl));
            }
            self.faults.hit("protocol paused");
            // operations continue to arrive while paused; unpause follows
            let d = self.n + self.rng.range(2, 10) as u32;
            self.pending.push((d, Self::tx(OWNER, Op::UnpauseCtl)));
            return Some(Self::tx(OWNER, Op::PauseCtl));
        }
        if kk(K::UpgradeCtl) {
            self.faults.hit("controller upgraded mid-run");
            let d = self.n + self.rng.range(2, 8) as u32;
            self.pending.push((d, Self::tx(OWNER, Op::UnpauseCtl)));
            return Some(Self::tx(OWNER, Op::UpgradeCtl));
        }
        if kk(K::UpgradePool) {
            self.faults.hit("pool upgraded mid-run");
            let t = self.tok(w);
            return Some(Self::tx(OWNER, Op::UpgradePool { tok: t }));
        }
        if kk(K::PriceMove) {
            let t = *self.rng.pick(&FEEDS);
            let fct = if self.rng.pct(80) { 0.93 + self.rng.unit() * 0.15 } else { 0.5 + self.rng.unit() * 1.2 };
            return self.move_price(w, spec, t, fct);
        }
        if kk(K::Crash) {
            return self.g_crash(w, spec, s);
        }
        if kk(K::DexMove) {
            let t = *self.rng.pick(&DEXED);
            if self.rng.pct(6) {
                self.faults.hit("DEX quote unavailable");
                return Some(Step::DexGone { tok: t });
            }
            self.faults.hit("DEX price deviates");
            let px = self.usd.clone();
            let (num, den) = fair_dex(&px, t);
            let o = &spec.oracles[t as usize];
            // aim near the tolerance bands
            let band = *self.rng.pick(&[0u64, o.first, o.last, o.last * 2, o.first / 2]);
            let jitter = self.rng.range(0, 6) as i64 - 3;
            let b = (10_000 + band) as i64 + jitter;
            let num = if self.rng.pct(50) {
                mul_div(num, b as u128, 10_000)
            } else {
                mul_div(num, 10_000, b as u128)
            };
            return Some(Step::Dex { tok: t, num: num.max(1), den });
        }
        if kk(K::PairState) {
            let t = *self.rng.pick(&[BTC, XOXNO, UTK]);
            let st = if w.env.pair_state.get(&t) == Some(&1) {
                self.faults.hit("DEX pair inactive");
                *self.rng.pick(&[0u8, 2])
            } else {
                1
            };
            return Some(Step::PairState { tok: t, state: st });
        }
        if kk(K::RateMove) {
            let t = *self.rng.pick(&[XEGLD, LEGLD, LXOXNO]);
            let r = self.rates[t as usize];
            let n = mul_div(r, 9_950 + self.rng.below(200) as u128, 10_000);
            self.rates[t as usize] = n;
            return Some(Step::Rate { tok: t, rate: n });
        }
        if kk(K::LpMove) {
            let t = *self.rng.pick(&[LPA, LPB]);
            if !w.pools.contains_key(&t) {
                return None;
            }
            let px = self.usd.clone();
            let (mut r0, mut r1, sp) = fair_lp(&px, &self.rates, t);
            // an attacker pushes the pool off balance at constant product, or liquidity changes
            if self.rng.pct(60) {
                self.faults.hit("LP reserves manipulated");
                let k = self.rng.range(2, 400) as u128;
                if self.rng.pct(50) {
                    r0 = r0.saturating_mul(k) / 10;
                    r1 = (r1.saturating_mul(10) / k).max(1);
                } else {
                    r1 = r1.saturating_mul(k) / 10;
                    r0 = (r0.saturating_mul(10) / k).max(1);
                }
            }
            return Some(Step::LpRes { tok: t, r0: r0.max(1), r1: r1.max(1), supply: sp });
        }
        if kk(K::NodeVote) || kk(K::NodeFault) {
            return self.g_vote(kk(K::NodeFault), w, spec);
        }
        if kk(K::AggAdmin) {
            let all: Vec<u8> = (0..w.cfg.nodes + 3).collect();
            let n = *self.rng.pick(&all);
            let many = spec.agg.nodes.len() > 40;
            let cnt = if many && self.rng.pct(50) {
                self.rng.range(48, 53)
            } else {
                self.rng.range(0, (w.cfg.nodes + 2) as u64)
            };
            let from = if self.rng.pct(85) { OWNER } else { self.user(w) };
            self.faults.hit("oracle committee changed");
            // one node, several, the same one twice, or a whole new committee
            let mut nodes = vec![n];
            if self.rng.pct(40) {
                for _ in 0..self.rng.range(1, 3) {
                    nodes.push(*self.rng.pick(&all));
                }
            } else if self.rng.pct(4) {
                nodes = (20..20 + self.rng.range(46, 54) as u8).collect();
            }
            return Some(Self::tx(
                from,
                match self.rng.below(3) {
                    0 => Op::AggAdd { nodes },
                    1 => {
                        let left = spec.agg.nodes.keys().filter(|n| !nodes.contains(n)).count() as u64;
                        let cnt = if self.rng.pct(50) { self.rng.range(left.saturating_sub(1), left + 1) } else { cnt };
                        Op::AggRemove { count: cnt, nodes }
                    }
                    _ => Op::AggCount { count: cnt },
                },
            ));
        }
        if kk(K::AggPause) {
            if spec.agg.paused {
                return Some(Self::tx(OWNER, Op::AggUnpause));
            }
            self.faults.hit("price aggregator paused");
            let d = self.n + self.rng.range(2, 10) as u32;
            self.pending.push((d, Self::tx(OWNER, Op::AggUnpause)));
            let up = self.rng.pct(15);
            return Some(Self::tx(OWNER, if up { Op::AggUpgrade } else { Op::AggPause }));
        }
        if kk(K::Raw) {
            return self.g_raw(w, s);
        }
        if kk(K::Scene) {
            if !self.todo.is_empty() {
                return None;
            }
            return self.g_scene(w, spec, s);
        }
        if kk(K::Probe) {
            let v: Vec<u64> = s.accts.keys().cloned().collect();
            let nonce = if v.is_empty() { 0 } else { *self.rng.pick(&v) };
            let t = self.tok(w);
            let amount = self.some_amount(t);
            return Some(Step::Probe {
                kind: self.rng.below(self.p.probe_kinds as u64) as u16,
                from: self.user(w),
                tok: t,
                nonce,
                amount,
                extra: self.rng.next(),
            });
        }
        None
    }

    fn break_rate(&mut self, r: &mut RateCfg) {
        match self.rng.below(6) {
            0 => r.max = r.base,
            1 => r.max = r.base / 2,
            2 => r.opt = r.mid,
            3 => r.opt = RAY,
            4 => r.opt = RAY + 1 + self.rng.u128_below(RAY),
            _ => r.rf = 10_000 + if self.rng.pct(50) { 0 } else { self.rng.below(5000) },
        }
    }

    /// approximate USD value of a scaled position at stored indexes
    fn val(&self, s: &Snap, t: u8, scaled: &BigInt, debt: bool) -> f64 {
        let p = &s.pools[&t];
        let a = model::amt(scaled, if debt { &p.bi } else { &p.si });
        f(&a) / 1e27 * self.usd_f(t)
    }

    fn move_price(&mut self, w: &World, spec: &Spec, t: u8, fct: f64) -> Option<Step> {
        let cur = self.usd[t as usize] as f64;
        let v = (cur * fct).max(1e9f64.min(cur)).min(1e28);
        self.usd[t as usize] = v as u128;
        let follow = self.dex_follow;
        let st = self.feed_steps(w, spec, follow);
        self.queue.extend(st);
        self.queue.pop_front()
    }

    /// move one collateral price so that some borrower's health factor lands in a chosen range
    fn g_crash(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let px = self.prices(w);
        let acc = model::accrue_all(s, &spec.rates, w.ch.now_ms());
        let v: Vec<&Acct> = s.accts.values().filter(|a| !a.bor.is_empty() && !a.dep.is_empty()).collect();
        if v.is_empty() {
            return None;
        }
        let a = self.pick_acct(&v);
        let r = model::risk(a, &acc, &px)?;
        let hf = r.hf();
        let target = match self.rng.below(10) {
            0 => 1.0 + self.rng.unit() * 0.04,
            1..=4 => 0.9 + self.rng.unit() * 0.1,
            5..=7 => 0.6 + self.rng.unit() * 0.35,
            8 => 0.999 + self.rng.unit() * 0.002,
            _ => 0.0005 + self.rng.unit() * 0.4,
        };
        // the price that drives this account
        let t = *self.rng.pick(&a.dep.keys().cloned().collect::<Vec<_>>());
        let base = match t {
            XEGLD | LEGLD => WEGLD,
            LXOXNO => XOXNO,
            LPA | LPB => return None,
            x => x,
        };
        let fct = target / hf;
        if base == WEGLD {
            // prices are in EGLD: an EGLD crash is every other token rising
            let dt = *self.rng.pick(&a.bor.keys().cloned().collect::<Vec<_>>());
            if dt != WEGLD && dt != XEGLD && dt != LEGLD {
                return self.move_price(w, spec, WEGLD, fct.clamp(0.0001, 100.0));
            }
        }
        self.move_price(w, spec, base, fct.clamp(0.0001, 100.0))
    }

    fn g_supply(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let u = self.user(w);
        let t = self.tok(w);
        let mut pays = vec![(t, self.some_amount(t))];
        if self.rng.pct(15) {
            let t2 = self.tok(w);
            let a = self.some_amount(t2);
            pays.push((t2, a));
        }
        // land on / next to the supply cap
        let cap = spec.acs[&t].supply_cap;
        if cap > 0 && self.rng.pct(40) {
            let p = &s.pools[&t];
            let acc = model::accrue(p, &spec.rates[&t], w.ch.now_ms());
            let cur = model::down(&model::amt(&acc.supplied, &acc.si), t);
            let room = BigInt::from(cap) - cur;
            if room.is_positive() {
                let r = room.to_u128().unwrap_or(1);
                let d = self.rng.below(4) as u128;
                pays[0].1 = if self.rng.pct(50) { r + d } else { r.saturating_sub(d).max(1) };
            }
        }
        if self.rng.pct(2) {
            pays.push((JUNK, 5));
        }
        let mine: Vec<u64> = s.accts.values().filter(|a| a.owner == Some(u)).map(|a| a.nonce).collect();
        let emode = if self.rng.pct(25) && spec.last_em > 0 {
            Some(self.rng.range(1, spec.last_em as u64 + 1) as u8)
        } else {
            None
        };
        let (nft, to) = if !mine.is_empty() && self.rng.pct(60) {
            (Some(*self.rng.pick(&mine)), None)
        } else if !s.accts.is_empty() && self.rng.pct(8) {
            let v: Vec<u64> = s.accts.keys().cloned().collect();
            (None, Some(*self.rng.pick(&v)))
        } else if s.last_nonce > 0 && self.rng.pct(5) {
            // an account number nobody holds (any more)
            self.faults.hit("deposit aimed at a dead account");
            (None, Some(self.rng.range(0, s.last_nonce + 2)))
        } else {
            if s.accts.len() > 9 && !self.rng.pct(15) {
                return None;
            }
            (None, None)
        };
        Some(Self::tx(u, Op::Supply { nft, to, emode, pays }))
    }

    fn g_withdraw(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let a = self.own_acct(s)?.clone();
        let o = a.owner?;
        if a.dep.is_empty() {
            return None;
        }
        let ts: Vec<u8> = a.dep.keys().cloned().collect();
        let t = *self.rng.pick(&ts);
        let p = &s.pools[&t];
        let acc = model::accrue(p, &spec.rates[&t], w.ch.now_ms());
        let full = model::down(&model::amt(&a.dep[&t].scaled, &acc.si), t);
        let amount = match self.rng.below(10) {
            0..=2 => {
                let k = self.rng.range(1, 99);
                self.scale(&full, k, 100).max(1)
            }
            3..=4 => full.to_u128().unwrap_or(1),
            5 => full.to_u128().unwrap_or(1).saturating_add(self.rng.below(3) as u128),
            6 => full.to_u128().unwrap_or(1).saturating_sub(self.rng.below(3) as u128).max(1),
            7 => u128::MAX / 1000,
            8 => self.rng.range(1, 50) as u128,
            _ => {
                // as much as keeps the account exactly at the liquidation line
                let px = self.prices(w);
                let ac = model::accrue_all(s, &spec.rates, w.ch.now_ms());
                let r = model::risk(&a, &ac, &px)?;
                let room = &r.weighted - &r.debt;
                if !room.is_positive() || a.dep[&t].lt.is_zero() {
                    full.to_u128().unwrap_or(1)
                } else {
                    let v = room * BigInt::from(10_000) / &a.dep[&t].lt; // EGLD ray
                    let tok = v * model::wad() / px.get(&t)?;
                    let raw = model::down(&tok, t);
                    let k = self.rng.range(9990, 10010);
                    self.scale(&raw, k, 10_000).max(1)
                }
            }
        };
        let mut v = vec![(t, amount)];
        if self.rng.pct(15) {
            let t2 = *self.rng.pick(&ts);
            let p2 = &s.pools[&t2];
            let full2 = model::down(&model::amt(&a.dep[&t2].scaled, &p2.si), t2);
            let k = self.rng.range(1, 101);
            v.push((t2, self.scale(&full2, k, 100).max(1)));
        }
        Some(Self::tx(o, Op::Withdraw { nft: a.nonce, w: v }))
    }

    fn g_borrow(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let a = self.own_acct(s)?.clone();
        let o = a.owner?;
        if a.dep.is_empty() && !self.rng.pct(5) {
            return None;
        }
        let px = self.prices(w);
        let acc = model::accrue_all(s, &spec.rates, w.ch.now_ms());
        let r = model::risk(&a, &acc, &px)?;
        let room = &r.ltv - &r.debt;
        let cnt = if self.rng.pct(18) { 2 } else { 1 };
        let mut b = vec![];
        for i in 0..cnt {
            // re-use an existing debt token often
            let t = if !a.bor.is_empty() && self.rng.pct(45) {
                *self.rng.pick(&a.bor.keys().cloned().collect::<Vec<_>>())
            } else {
                self.tok(w)
            };
            let pt = px.get(&t)?;
            let cash = &s.pools[&t].bal;
            let mx = if room.is_positive() { model::down(&(&room * model::wad() / pt), t) } else { BigInt::from(1000) };
            let amount = match self.rng.below(12) {
                0..=4 => {
                    let k = self.rng.range(3, 95);
                    self.scale(&mx, k, 100 * cnt as u64)
                }
                5..=6 => {
                    let d = self.rng.below(5) as i64 - 2;
                    (mx.clone() + BigInt::from(d)).to_u128().unwrap_or(1)
                }
                7 => {
                    let k = self.rng.range(10_001, 30_000);
                    self.scale(&mx, k, 10_000)
                }
                8 => self.rng.range(1, 1000) as u128,
                9 => (cash + BigInt::from(self.rng.below(3) as i64 - 1)).to_u128().unwrap_or(1),
                10 => {
                    let cap = spec.acs[&t].borrow_cap;
                    if cap > 0 {
                        let cur = model::down(&model::amt(&acc[&t].borrowed, &acc[&t].bi), t);
                        let room = BigInt::from(cap) - cur;
                        let d = self.rng.below(5) as i64 - 2;
                        (room + BigInt::from(d)).to_u128().unwrap_or(1)
                    } else {
                        let k = self.rng.range(90, 100);
                        self.scale(cash, k, 100)
                    }
                }
                _ => {
                    // inside both cash and room
                    let m = if &mx < cash { mx.clone() } else { cash.clone() };
                    let k = self.rng.range(50, 100);
                    self.scale(&m, k, 100)
                }
            };
            let _ = i;
            b.push((t, amount.max(1)));
        }
        if self.rng.pct(3) && b.len() == 1 {
            b.push(b[0]);
        }
        Some(Self::tx(o, Op::Borrow { nft: a.nonce, b }))
    }

    fn debt_raw(&self, w: &World, spec_rate: Option<&RateCfg>, s: &Snap, t: u8, p: &Pos) -> BigInt {
        let pl = &s.pools[&t];
        let idx = match spec_rate {
            Some(r) => model::accrue(pl, r, w.ch.now_ms()).bi,
            None => pl.bi.clone(),
        };
        model::down(&model::amt(&p.scaled, &idx), t)
    }

    fn g_repay(&mut self, w: &mut World, s: &Snap) -> Option<Step> {
        let v: Vec<&Acct> = s.accts.values().filter(|a| !a.bor.is_empty()).collect();
        if v.is_empty() {
            return None;
        }
        let a = self.pick_acct(&v).clone();
        // anybody may repay
        let from = match a.owner {
            Some(o) if self.rng.pct(80) => o,
            _ => self.user(w),
        };
        let ts: Vec<u8> = a.bor.keys().cloned().collect();
        let cnt = if self.rng.pct(15) { 2 } else { 1 };
        let mut pays = vec![];
        for _ in 0..cnt {
            let t = *self.rng.pick(&ts);
            let d = self.debt_raw(w, None, s, t, &a.bor[&t]);
            let amount = match self.rng.below(8) {
                0..=3 => {
                    let k = self.rng.range(1, 99);
                    self.scale(&d, k, 100)
                }
                4 => {
                    let k = self.rng.range(100, 150);
                    self.scale(&d, k, 100)
                }
                5 => d.to_u128().unwrap_or(1).saturating_add(self.rng.below(4) as u128),
                6 => d.to_u128().unwrap_or(1).saturating_sub(self.rng.below(4) as u128),
                _ => self.rng.range(1, 2000) as u128,
            };
            pays.push((t, amount.max(1)));
        }
        if self.rng.pct(2) {
            let t = self.tok(w);
            pays.push((t, 1000));
        }
        Some(Self::tx(from, Op::Repay { nonce: a.nonce, pays }))
    }

    fn g_liquidate(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let v: Vec<Acct> = s.accts.values().filter(|a| !a.bor.is_empty()).cloned().collect();
        if v.is_empty() {
            return None;
        }
        let px = self.prices(w);
        let acc = model::accrue_all(s, &spec.rates, w.ch.now_ms());
        let mut bad: Vec<Acct> = vec![];
        for a in &v {
            if let Some(r) = model::risk(a, &acc, &px) {
                if r.hf() < 1.0 {
                    bad.push(a.clone());
                }
            }
        }
        let a = if !bad.is_empty() {
            let v: Vec<&Acct> = bad.iter().collect();
            self.pick_acct(&v).clone()
        } else if self.rng.pct(10) {
            self.rng.pick(&v).clone()
        } else {
            return None;
        };
        let liq = self.user(w);
        let ts: Vec<u8> = a.bor.keys().cloned().collect();
        let mut pays = vec![];
        if self.usd[UTK as usize] < 100_000_000_000 && ts.contains(&UTK) && self.rng.pct(35) {
            // worth less than the smallest representable EGLD value
            self.faults.hit("payment worth nothing");
            return Some(Self::tx(liq, Op::Liquidate { nonce: a.nonce, pays: vec![(UTK, self.rng.range(1, 3) as u128)] }));
        }
        let all = self.rng.pct(50);
        for t in &ts {
            if !all && pays.len() > 0 && self.rng.pct(50) {
                continue;
            }
            let d = model::down(&model::amt(&a.bor[t].scaled, &acc[t].bi), *t);
            let amount = match self.rng.below(6) {
                0..=1 => {
                    let k = self.rng.range(1, 60);
                    self.scale(&d, k, 100)
                }
                2 => d.to_u128().unwrap_or(1),
                3 => {
                    let k = self.rng.range(100, 200);
                    self.scale(&d, k, 100)
                }
                4 => {
                    if self.rng.pct(40) {
                        self.rng.range(1, 3) as u128
                    } else {
                        self.rng.range(1, 5000) as u128
                    }
                }
                _ => {
                    let k = self.rng.range(60, 100);
                    self.scale(&d, k, 100)
                }
            };
            pays.push((*t, amount.max(1)));
            if self.rng.pct(12) {
                // the same token paid in two parts
                let k = self.rng.range(20, 120);
                pays.push((*t, self.scale(&d, k, 100).max(1)));
            }
        }
        if self.rng.pct(30) && pays.len() > 1 {
            let n = pays.len();
            let (i, j) = (self.rng.below(n as u64) as usize, self.rng.below(n as u64) as usize);
            pays.swap(i, j);
        }
        Some(Self::tx(liq, Op::Liquidate { nonce: a.nonce, pays }))
    }

    pub fn flash_required(amount: u128, fee: u64) -> u128 {
        let num = bu(amount) * bu(10_000 + fee as u128);
        let r: num_bigint::BigUint = (num + bu(5_000)) / bu(10_000);
        r.to_u128().unwrap_or(u128::MAX)
    }

    fn g_flash(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let t = self.tok(w);
        let cash = s.pools[&t].bal.clone();
        let amount = match self.rng.below(5) {
            0 => cash.to_u128().unwrap_or(1),
            1 => cash.to_u128().unwrap_or(1).saturating_add(1),
            2 => self.rng.range(1, 100) as u128,
            _ => {
                let k = self.rng.range(1, 99);
                self.scale(&cash, k, 100)
            }
        }
        .max(if self.rng.pct(3) { 0 } else { 1 });
        let need = Self::flash_required(amount, spec.acs[&t].flash_fee);
        let other = self.tok(w);
        let prog: Prog = match self.rng.below(14) {
            0..=4 => vec![Act::Send(vec![(t, need)])],
            5 => {
                self.faults.hit("flash borrower returns too little");
                let d = self.rng.range(1, 3) as u128;
                vec![Act::Send(vec![(t, need.saturating_sub(d).max(1))])]
            }
            6 => {
                let d = self.rng.range(1, 1_000_000) as u128;
                vec![Act::Send(vec![(t, need + d)])]
            }
            7 => {
                self.faults.hit("flash borrower keeps the money");
                vec![]
            }
            8 => {
                self.faults.hit("flash borrower returns another token");
                vec![Act::Send(vec![(if other == t { JUNK } else { other }, need)])]
            }
            9 => {
                self.faults.hit("flash borrower splits or mixes its repayment");
                if self.rng.pct(40) {
                    vec![Act::Send(vec![(t, need / 2)]), Act::Send(vec![(t, need - need / 2)])]
                } else if self.rng.pct(30) {
                    vec![Act::Send(vec![(t, need)]), Act::SendSft(3)]
                } else {
                    vec![Act::Send(vec![(t, need), (JUNK, 7)])]
                }
            }
            12..=13 => {
                self.faults.hit("flash borrower sends more than the repayment");
                let d = self.rng.range(1, 1_000_000) as u128;
                let x = *self.rng.pick(&[t, JUNK, other]);
                let mut p = match self.rng.below(3) {
                    0 => vec![Act::Send(vec![(t, need)]), Act::Send(vec![(x, d)])],
                    1 => vec![Act::Send(vec![(x, d)]), Act::Send(vec![(t, need)])],
                    _ => vec![Act::Send(vec![(t, need), (x, d)])],
                };
                if self.rng.pct(20) {
                    p.push(Act::Send(vec![(t, need)]));
                }
                p
            }
            10 => {
                self.faults.hit("flash borrower re-enters the protocol");
                let mut p = if self.rng.pct(40) {
                    // the one call a loan does not shut out: the treasury's share is paid out under the borrower's feet
                    let func = "claimRevenue".to_string();
                    vec![Act::Call { to: Tgt::Ctl, func, args: vec![crate::enc::s(tid(t))], pays: vec![], nft: None }]
                } else {
                    self.reentry(w, s, t, amount)
                };
                p.push(Act::Send(vec![(t, need)]));
                p
            }
            _ => {
                self.faults.hit("flash borrower fails");
                vec![Act::Fail]
            }
        };
        let u = self.user(w);
        Some(Self::tx(u, Op::Flash { tok: t, amount, prog }))
    }

    /// a call back into the protocol by a contract that currently holds the floor
    pub fn reentry(&mut self, w: &World, s: &Snap, t: u8, amount: u128) -> Prog {
        use crate::enc;
        let n = s.accts.keys().next().cloned().unwrap_or(1);
        let pt = |t: u8, a: u128| enc::payment(tid(t), 0, &bu(a));
        let c = |func: &str, args: Vec<Vec<u8>>, pays: Vec<(u8, u128)>, nft: Option<u64>| Act::Call {
            to: Tgt::Ctl,
            func: func.to_string(),
            args,
            pays,
            nft,
        };
        let o = self.tok(w);
        vec![match self.rng.below(13) {
            0 => c("supply", vec![], vec![(t, amount.max(1))], None),
            1 => c("withdraw", vec![pt(t, 1)], vec![], Some(n)),
            2 => c("borrow", vec![pt(t, 1)], vec![], Some(n)),
            3 => c("repay", vec![enc::u(n)], vec![(t, amount.max(1))], None),
            4 => c("liquidate", vec![enc::u(n)], vec![(t, amount.max(1))], None),
            5 => c(
                "flashLoan",
                vec![enc::s(tid(o)), enc::u(1), enc::a(&w.flash), enc::s("go"), enc::argbuf(&[vec![]])],
                vec![],
                None,
            ),
            6 => c("updateIndexes", vec![enc::s(tid(t))], vec![], None),
            7 => c("updateAccountThreshold", vec![enc::s(tid(t)), enc::b(true), enc::u(n)], vec![], None),
            8 => c("cleanBadDebt", vec![enc::u(n)], vec![], None),
            9 => c(
                "multiply",
                vec![enc::u(0), enc::s(tid(o)), enc::u(1), enc::s(tid(t)), enc::u(2), vec![]],
                vec![(t, amount.max(1))],
                None,
            ),
            10 => c("swapDebt", vec![enc::s(tid(t)), enc::u(1), enc::s(tid(o)), vec![]], vec![], Some(n)),
            11 => c("swapCollateral", vec![enc::s(tid(t)), enc::u(1), enc::s(tid(o)), vec![]], vec![], Some(n)),
            _ => c(
                "repayDebtWithCollateral",
                vec![enc::s(tid(t)), enc::u(1), enc::s(tid(o)), vec![]],
                vec![],
                Some(n),
            ),
        }]
    }

    /// what the swap router hands back for `a` raw units of `from`
    fn swap_out(&mut self, from: u8, a: u128, to: u8) -> u128 {
        let v = a as f64 / 10f64.powi(tdec(from) as i32) * self.usd_f(from);
        self.raw_for_usd(to, v)
    }
    fn router(&mut self, w: &World, from: u8, a: u128, to: u8) -> Prog {
        let mut p = self.router_base(w, from, a, to);
        if self.rng.pct(self.p.mid_move) {
            let c: Vec<u8> = [XEGLD, LEGLD, LXOXNO, LPA, LPB, BTC, XOXNO, UTK].iter().cloned().filter(|t| w.pools.contains_key(t)).collect();
            if !c.is_empty() {
                self.faults.hit("price source moves during the swap");
                let near: Vec<u8> = c.iter().cloned().filter(|t| *t == from || *t == to).collect();
                let t = if !near.is_empty() && self.rng.pct(80) { *self.rng.pick(&near) } else { *self.rng.pick(&c) };
                let k = self.rng.range(8_500, 11_000) as u128;
                let v = match t {
                    XEGLD | LEGLD | LXOXNO => (mul_div(self.rates[t as usize], k, 10_000).max(1), 0, 0),
                    LPA | LPB => {
                        let (a, b, s) = fair_lp(&self.usd, &self.rates, t);
                        (mul_div(a, k, 10_000), mul_div(b, k, 10_000), s)
                    }
                    _ => {
                        let (n, d) = fair_dex(&self.usd, t);
                        (mul_div(n, k, 10_000).max(1), d, 0)
                    }
                };
                p.insert(0, Act::Move { tok: t, v });
            }
        }
        p
    }
    fn router_base(&mut self, w: &World, from: u8, a: u128, to: u8) -> Prog {
        let fair = self.swap_out(from, a, to);
        match self.rng.below(16) {
            0..=8 => {
                let k = self.rng.range(970, 1005) as u128;
                vec![Act::Send(vec![(to, mul_div(fair, k, 1000).max(1))])]
            }
            9 => {
                self.faults.hit("router returns little");
                let k = self.rng.range(1, 800) as u128;
                vec![Act::Send(vec![(to, mul_div(fair, k, 1000).max(1))])]
            }
            10 => {
                self.faults.hit("router returns nothing");
                vec![Act::Send(vec![])]
            }
            11 => {
                self.faults.hit("router returns a wrong token");
                vec![Act::Send(vec![(JUNK, fair.max(1))])]
            }
            12 => {
                if self.rng.pct(30) {
                    self.faults.hit("router returns a semi-fungible token as well");
                    return vec![Act::Send(vec![(to, fair.max(1))]), Act::SendSft(3)];
                }
                self.faults.hit("router returns extra tokens");
                vec![Act::Send(vec![(to, fair.max(1)), (JUNK, 1234)])]
            }
            13 => {
                self.faults.hit("router returns change of the input token");
                let o = self.rng.range(1, 1000) as u128;
                vec![Act::Send(vec![(to, fair.max(1)), (from, o)])]
            }
            14 => {
                self.faults.hit("router reverts");
                vec![Act::Fail]
            }
            _ => {
                let t3 = self.tok(w);
                self.faults.hit("router returns three tokens");
                vec![Act::Send(vec![(t3, 77), (to, fair.max(1)), (JUNK, 5)])]
            }
        }
    }

    fn g_multiply(&mut self, w: &mut World, spec: &Spec, s: &Snap) -> Option<Step> {
        let u = self.user(w);
        let collat = self.tok(w);
        let debt = self.tok(w);
        let lt = spec.acs[&collat].lt as f64 / 1e4;
        // leverage below / around the limit
        let equity = 10f64.powf(1.0 + self.rng.unit() * 4.0);
        let maxlev = 1.0 / (1.0 - lt * 0.999).max(0.03);
        let lev = 1.0 + (maxlev - 1.0) * (0.2 + self.rng.unit() * 0.9);
        let debt_usd = equity * (lev - 1.0);
        let amount = self.raw_for_usd(debt, debt_usd);
        let mode = *self.rng.pick(&[2u8, 3, 4, 2, 3, 4, 1]);
        let mine: Vec<Acct> = s.accts.values().filter(|a| a.owner == Some(u) && a.mode >= 2).cloned().collect();
        let third = self.rng.below(3);
        let fee = spec.acs[&debt].flash_fee as u128;
        let net = amount - mul_div(amount, fee, 10_000);
        let emode = if self.rng.pct(20) && spec.last_em > 0 { self.rng.range(1, spec.last_em as u64) as u8 } else { 0 };
        if !mine.is_empty() && self.rng.pct(35) {
            let a = self.rng.pick(&mine).clone();
            let steps = self.router(w, debt, net, collat);
            return Some(Self::tx(
                u,
                Op::Multiply {
                    nft: Some(a.nonce),
                    emode: a.emode,
                    collat,
                    amount: amount / 4 + 1,
                    debt,
                    mode: a.mode,
                    pays: if self.rng.pct(30) { vec![(collat, self.raw_for_usd(collat, equity))] } else { vec![] },
                    steps: Some(steps),
                    steps_pay: None,
                },
            ));
        }
        let (pays, steps, steps_pay) = match third {
            0 => {
                // pay in collateral
                let a = self.raw_for_usd(collat, equity);
                let st = self.router(w, debt, net, collat);
                (vec![(collat, a)], st, None)
            }
            1 => {
                // pay in the debt token: everything is swapped
                let a = self.raw_for_usd(debt, equity);
                let st = self.router(w, debt, net + a, collat);
                (vec![(debt, a)], st, None)
            }
            _ => {
                let t3 = if self.rng.pct(90) { self.tok(w) } else { JUNK };
                let a = if t3 == JUNK { 1_000_000 } else { self.raw_for_usd(t3, equity) };
                let sp = if t3 == JUNK {
                    vec![Act::Send(vec![(collat, self.raw_for_usd(collat, equity))])]
                } else {
                    self.router(w, t3, a, collat)
                };
                let st = self.router(w, debt, net, collat);
                (vec![(t3, a)], st, if self.rng.pct(90) { Some(sp) } else { None })
            }
        };
        Some(Self::tx(
            u,
            Op::Multiply { nft: None, emode, collat, amount, debt, mode, pays, steps: Some(steps), steps_pay },
        ))
    }

    fn g_swap_debt(&mut self, w: &mut World, s: &Snap) -> Option<Step> {
        let v: Vec<Acct> = s.accts.values().filter(|a| a.owner.is_some() && !a.bor.is_empty()).cloned().collect();
        if v.is_empty() {
            return None;
        }
        let a = self.pick_acct(&v.iter().collect::<Vec<_>>()).clone();
        let old = *self.rng.pick(&a.bor.keys().cloned().collect::<Vec<_>>());
        let new = self.tok(w);
        if new == old && !self.rng.pct(5) {
            return None;
        }
        let d = self.debt_raw(w, None, s, old, &a.bor[&old]).to_u128().unwrap_or(1);
        let k = self.rng.range(10, 110) as u128;
        let amount = mul_div(self.swap_out(old, d, new), k, 100).max(1);
        let steps = self.router(w, new, amount, old);
        let pays = if self.rng.pct(12) {
            let t = *self.rng.pick(&[old, new]);
            vec![(t, self.some_amount(t))]
        } else {
            vec![]
        };
        Some(Self::tx(a.owner?, Op::SwapDebt { nft: a.nonce, old, amount, new, steps, pays }))
    }

    fn g_swap_coll(&mut self, w: &mut World, s: &Snap) -> Option<Step> {
        let v: Vec<Acct> = s.accts.values().filter(|a| a.owner.is_some() && !a.dep.is_empty()).cloned().collect();
        if v.is_empty() {
            return None;
        }
        let a = self.pick_acct(&v.iter().collect::<Vec<_>>()).clone();
        let cur = *self.rng.pick(&a.dep.keys().cloned().collect::<Vec<_>>());
        let new = self.tok(w);
        if new == cur && !self.rng.pct(5) {
            return None;
        }
        let p = &s.pools[&cur];
        let full = model::down(&model::amt(&a.dep[&cur].scaled, &p.si), cur);
        let k = self.rng.range(5, 110);
        let amount = self.scale(&full, k, 100).max(1);
        let steps = self.router(w, cur, amount, new);
        let pays = if self.rng.pct(20) {
            let t = if self.rng.pct(60) { *self.rng.pick(&[cur, new]) } else { self.tok(w) };
            vec![(t, if self.rng.pct(50) { self.some_amount(t) } else { self.rng.range(1, 5000) as u128 })]
        } else {
            vec![]
        };
        Some(Self::tx(a.owner?, Op::SwapColl { nft: a.nonce, cur, amount, new, steps, pays }))
    }

    fn g_repay_coll(&mut self, w: &mut World, s: &Snap) -> Option<Step> {
        let v: Vec<Acct> =
            s.accts.values().filter(|a| a.owner.is_some() && !a.dep.is_empty() && !a.bor.is_empty()).cloned().collect();
        if v.is_empty() {
            return None;
        }
        let a = self.pick_acct(&v.iter().collect::<Vec<_>>()).clone();
        let from = *self.rng.pick(&a.dep.keys().cloned().collect::<Vec<_>>());
        let to = *self.rng.pick(&a.bor.keys().cloned().collect::<Vec<_>>());
        let d = self.debt_raw(w, None, s, to, &a.bor[&to]).to_u128().unwrap_or(1);
        let p = &s.pools[&from];
        let full = model::down(&model::amt(&a.dep[&from].scaled, &p.si), from);
        let close = self.rng.pct(35);
        let need = self.swap_out(to, d, from);
        let amount = match self.rng.below(4) {
            0 => mul_div(need, self.rng.range(1005, 1100) as u128, 1000).max(1),
            1 => mul_div(need, self.rng.range(5, 95) as u128, 100).max(1),
            2 => full.to_u128().unwrap_or(1),
            _ => {
                let k = self.rng.range(5, 105);
                self.scale(&full, k, 100).max(1)
            }
        };
        let real = amount.min(full.to_u128().unwrap_or(1)).max(1);
        let steps = if from == to && self.rng.pct(80) { None } else { Some(self.router(w, from, real, to)) };
        Some(Self::tx(a.owner?, Op::RepayColl { nft: a.nonce, from, amount, to, close, steps }))
    }

    /// a token without a market
    fn no_market(&mut self, w: &World) -> u8 {
        let missing: Vec<u8> = (0..NTOK as u8).filter(|t| !w.pools.contains_key(t)).chain([JUNK]).collect();
        *self.rng.pick(&missing)
    }

    fn g_emode(&mut self, w: &mut World, spec: &Spec) -> Option<Step> {
        let t = if self.rng.pct(self.p.bad_cfg / 2) { self.no_market(w) } else { self.tok(w) };
        let id = if spec.last_em == 0 { 1 } else { self.rng.range(1, spec.last_em as u64) as u8 };
        let ltv = self.rng.range(70, 94) * 100;
        let lt = ltv + 50 + self.rng.below(400);
        let bonus = self.rng.range(50, 600);
        let op = match self.rng.below(10) {
            0 if spec.last_em < 4 => Op::EmAdd { ltv, lt, bonus },
            1..=2 => Op::EmEdit { id, ltv, lt, bonus, deprecated: self.rng.pct(10) },
            3 => Op::EmRemove { id },
            4..=6 => Op::EmAddAsset { tok: t, id, collat: self.rng.pct(80), borrow: self.rng.pct(80) },
            7..=8 => Op::EmEditAsset { tok: t, id, collat: self.rng.pct(70), borrow: self.rng.pct(70) },
            _ => Op::EmRemoveAsset { tok: t, id },
        };
        Some(Self::tx(OWNER, op))
    }

    fn g_vote(&mut self, faulty: bool, w: &World, spec: &Spec) -> Option<Step> {
        let now = w.ch.now();
        let mut node = self.rng.below(w.cfg.nodes as u64 + 2) as u8;
        let t = *self.rng.pick(&FEEDS);
        let base = self.usd[t as usize] as f64;
        let mut price = (base * (0.995 + self.rng.unit() * 0.01)) as u128;
        let mut ts = now - self.rng.below(20).min(now);
        if faulty {
            match self.rng.below(6) {
                0 => {
                    self.faults.hit("oracle node reports an outlier");
                    price = *self.rng.pick(&[0u128, 1, u128::MAX / 8, WAD * 1_000_000_000]);
                }
                1 => {
                    self.faults.hit("oracle node clock ahead");
                    ts = now + self.rng.range(1, 100);
                }
                2 => {
                    self.faults.hit("oracle node message late");
                    ts = now.saturating_sub(self.rng.range(29, 33));
                }
                3 => {
                    self.faults.hit("oracle node very late");
                    ts = now.saturating_sub(self.rng.range(31, 100_000));
                }
                4 => {
                    self.faults.hit("stranger votes");
                    node = w.cfg.nodes + 2;
                }
                _ => {
                    self.faults.hit("oracle nodes stall across the round deadline");
                    let d = *self.rng.pick(&[1799u64, 1800, 1801, 900, 4000]);
                    self.queue.push_back(Step::Adv(d));
                    // the vote is stamped when it is sent, after the stall
                    ts = now + d;
                    let op = Op::Submit { tick: TOKS[t as usize].tick.to_string(), ts, price };
                    self.queue.push_back(Self::tx(NODE0 + node, op));
                    return self.queue.pop_front();
                }
            }
        }
        if self.rng.pct(25) {
            let mut subs = vec![(t, ts, price)];
            for _ in 0..self.rng.below(3) {
                let t2 = *self.rng.pick(&FEEDS);
                let p2 = self.usd[t2 as usize];
                subs.push((t2, now, p2));
            }
            return Some(Self::tx(NODE0 + node, Op::SubmitBatch { subs }));
        }
        let _ = spec;
        Some(Self::tx(NODE0 + node, Op::Submit { tick: TOKS[t as usize].tick.to_string(), ts, price }))
    }

    fn g_raw(&mut self, w: &World, s: &Snap) -> Option<Step> {
        use crate::enc;
        let u = self.user(w);
        let t = self.tok(w);
        let other = self.rng.range(1, w.cfg.users as u64) as u8;
        let n = s.accts.keys().next().cloned().unwrap_or(1);
        let ua = enc::a(&user_addr(u));
        let zero_ray = {
            let mut v = enc::nested(&enc::big(&bu(RAY)));
            v.extend_from_slice(&27u32.to_be_bytes());
            v
        };
        let dec = |v: u128, d: u32| -> Vec<u8> {
            let mut o = enc::nested(&enc::big(&bu(v)));
            o.extend_from_slice(&d.to_be_bytes());
            o
        };
        // a forged position: the attacker claims a huge deposit
        let pos = |kind: u8, sc: u128| -> Vec<u8> {
            let mut o = vec![kind];
            o.extend(enc::nested(tid(t).as_bytes()));
            o.extend(dec(sc, 27));
            o.extend_from_slice(&n.to_be_bytes());
            for _ in 0..4 {
                o.extend(dec(5000, 4));
            }
            o
        };
        let px = dec(WAD, 18);
        let amt = dec(10, tdec(t));
        let junk_addr = enc::a(&w.router);
        let (to, func, args, pays): (Tgt, &str, Vec<Vec<u8>>, Vec<(u8, u128)>) = match self.rng.below(35) {
            0 => (Tgt::Pool(t), "borrow", vec![ua, amt, pos(2, 0), px], vec![]),
            1 => (Tgt::Pool(t), "withdraw", vec![ua, amt, pos(1, RAY * 1000), vec![], vec![], px], vec![]),
            2 => (Tgt::Pool(t), "supply", vec![pos(1, 0), px], vec![(t, 1000)]),
            3 => (Tgt::Pool(t), "repay", vec![ua, pos(2, RAY), px], vec![(t, 1000)]),
            4 => (Tgt::Pool(t), "claimRevenue", vec![px], vec![]),
            5 => (Tgt::Pool(t), "addRewards", vec![px], vec![(t, 1000)]),
            6 => (Tgt::Pool(t), "seizePosition", vec![pos(2, RAY), px], vec![]),
            7 => (Tgt::Pool(t), "createStrategy", vec![pos(2, 0), amt.clone(), amt, px], vec![]),
            8 => (Tgt::Pool(t), "updateIndexes", vec![px], vec![]),
            9 => (
                Tgt::Pool(t),
                "updateParams",
                vec![enc::u(9), enc::u(1), enc::u(1), enc::u(1), enc::u(1), enc::u(1), enc::u(2), enc::u(0), px],
                vec![],
            ),
            10 => (
                Tgt::Pool(t),
                "flashLoan",
                vec![
                    enc::s(tid(t)),
                    amt,
                    enc::a(&w.flash),
                    enc::s("go"),
                    enc::argbuf(&[w.prog(&vec![Act::Send(vec![(t, 10)])])]),
                    dec(0, 4),
                    px,
                ],
                vec![],
            ),
            11 => (Tgt::Ctl, "setAggregator", vec![junk_addr], vec![]),
            12 => (Tgt::Ctl, "setSwapRouter", vec![junk_addr], vec![]),
            13 => (Tgt::Ctl, "setAccumulator", vec![junk_addr], vec![]),
            14 => (Tgt::Ctl, "setSafePriceView", vec![junk_addr], vec![]),
            15 => (Tgt::Ctl, "setLiquidityPoolTemplate", vec![junk_addr], vec![]),
            16 => (Tgt::Ctl, "pause", vec![], vec![]),
            17 => (Tgt::Ctl, "setPositionLimits", vec![enc::u(1), enc::u(1)], vec![]),
            18 => (Tgt::Ctl, "addEModeCategory", vec![enc::u(9000), enc::u(9500), enc::u(100)], vec![]),
            19 => (Tgt::Ctl, "removeEModeCategory", vec![enc::u(1)], vec![]),
            20 => (
                Tgt::Ctl,
                "addAssetToEModeCategory",
                vec![enc::s(tid(t)), enc::u(1), enc::b(true), enc::b(true)],
                vec![],
            ),
            21 => (Tgt::Ctl, "editTokenOracleTolerance", vec![enc::s(tid(t)), enc::u(100), enc::u(200)], vec![]),
            22 => (Tgt::Ctl, "addRewards", vec![], vec![(t, 1000)]),
            23 => (Tgt::Ctl, "upgradeLiquidityPool", vec![enc::s(tid(t))], vec![]),
            24 => {
                let cur = Op::EditAsset { tok: t, ac: AssetCfg { ltv: 9000, lt: 9900, bonus: 0, fee: 0, collat: true, borrow: true, isolated: false, ceiling: 0, siloed: false, flash: true, flash_fee: 0, iso_borrow: true, borrow_cap: 0, supply_cap: 0 } };
                let (_, f, a, _) = w.lower(&cur);
                return Some(Self::tx(u, Op::Raw { to: Tgt::Ctl, func: f, args: a, pays: vec![], nft: None }));
            }
            25 => {
                let r = fill_rate(&mut self.rng);
                let (_, f, a, _) = w.lower(&Op::PoolParams { tok: t, r });
                return Some(Self::tx(u, Op::Raw { to: Tgt::Ctl, func: f, args: a, pays: vec![], nft: None }));
            }
            26 => (Tgt::Agg, "addOracles", vec![enc::a(&user_addr(other))], vec![]),
            27 => (Tgt::Agg, "removeOracles", vec![enc::u(1), enc::a(&user_addr(NODE0))], vec![]),
            28 => (Tgt::Agg, "setSubmissionCount", vec![enc::u(1)], vec![]),
            29 => (Tgt::Agg, "pause", vec![], vec![]),
            30 => (
                Tgt::Agg,
                "submit",
                vec![enc::s("USDC"), enc::s("USD"), enc::u(w.ch.now()), enc::u(1)],
                vec![],
            ),
            31 => (
                Tgt::Ctl,
                "setTokenOracle",
                vec![
                    enc::s("NEWTOK-123456"),
                    enc::u(18),
                    enc::a(w.pairs.get(&BTC).unwrap()),
                    enc::u(3),
                    enc::u(1),
                    enc::u(1),
                    enc::u(100),
                    enc::u(200),
                    enc::u(1000),
                ],
                vec![],
            ),
            32 => (Tgt::Ctl, "editEModeCategory", vec![{
                let mut v = vec![1u8];
                v.extend(dec(9000, 4));
                v.extend(dec(9900, 4));
                v.extend(dec(1, 4));
                v.push(0);
                v
            }], vec![]),
            33 => (Tgt::Ctl, "registerAccountToken", vec![enc::s("Lending"), enc::s("LEND")], vec![]),
            _ => (Tgt::Ctl, "removeAssetFromEModeCategory", vec![enc::s(tid(t)), enc::u(1)], vec![]),
        };
        let _ = zero_ray;
        self.faults.hit("unauthorised call");
        Some(Self::tx(u, Op::Raw { to, func: func.to_string(), args, pays, nft: None }))
    }
}
