//! Plain data of the simulation: token table, run configuration, operations, steps.
//! Everything here is serialisable, so a recorded step list replays without any randomness.
use serde::{Deserialize, Serialize};

pub const RAY: u128 = 1_000_000_000_000_000_000_000_000_000;
pub const WAD: u128 = 1_000_000_000_000_000_000;

pub struct TokDef {
    pub id: &'static str,
    pub tick: &'static str,
    pub dec: u32,
}
pub const WEGLD: u8 = 0;
pub const USDC: u8 = 1;
pub const USDT: u8 = 2;
pub const BTC: u8 = 3;
pub const XOXNO: u8 = 4;
pub const UTK: u8 = 5;
pub const XEGLD: u8 = 6;
pub const LEGLD: u8 = 7;
pub const LXOXNO: u8 = 8;
pub const LPA: u8 = 9; // WEGLD/USDC
pub const LPB: u8 = 10; // LXOXNO/WEGLD
pub const NTOK: usize = 11;
/// a token the protocol does not know
pub const JUNK: u8 = 11;
pub const SFT: (&str, u64) = ("JUNKSFT-0a1b2c", 7);

pub const TOKS: [TokDef; 12] = [
    TokDef { id: "WEGLD-bd4d79", tick: "EGLD", dec: 18 },
    TokDef { id: "USDC-c76f1f", tick: "USDC", dec: 6 },
    TokDef { id: "USDT-f8c08c", tick: "USDT", dec: 6 },
    TokDef { id: "WBTC-5349b3", tick: "WBTC", dec: 8 },
    TokDef { id: "XOXNO-c1293a", tick: "XOXNO", dec: 18 },
    TokDef { id: "UTK-2f80e9", tick: "UTK", dec: 18 },
    TokDef { id: "XEGLD-e413ed", tick: "XEGLD", dec: 18 },
    TokDef { id: "LEGLD-d74da9", tick: "LEGLD", dec: 18 },
    TokDef { id: "LXOXNO-b5c8a4", tick: "LXOXNO", dec: 18 },
    TokDef { id: "EGLDUSDC-594e5e", tick: "EGLDUSDC", dec: 18 },
    TokDef { id: "LXOWEGLD-ba12cd", tick: "LXOWEGLD", dec: 18 },
    TokDef { id: "JUNK-123456", tick: "JUNK", dec: 18 },
];
/// what the chain calls its own coin
pub const EGLD: &str = "EGLD";
thread_local! {
    static NATIVE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// whether market 0 of the run on this thread is EGLD itself instead of its wrapped form
pub fn set_native(on: bool) {
    NATIVE.with(|n| n.set(on));
}
pub fn tid(t: u8) -> &'static str {
    if t == WEGLD && NATIVE.with(|n| n.get()) {
        return EGLD;
    }
    TOKS[t as usize].id
}
/// wrapped EGLD, as DEX pairs know it
pub fn wid() -> &'static str {
    TOKS[WEGLD as usize].id
}
pub fn tdec(t: u8) -> u32 {
    TOKS[t as usize].dec
}
pub fn tok_by_id(s: &str) -> Option<u8> {
    if s == tid(WEGLD) {
        return Some(WEGLD);
    }
    TOKS.iter().position(|x| x.id == s && x.id != wid()).map(|i| i as u8)
}
pub const NFT: &str = "LEND-a1b2c3";

/// tokens whose USD price comes from oracle nodes
pub const FEEDS: [u8; 6] = [WEGLD, USDC, USDT, BTC, XOXNO, UTK];
/// tokens with a DEX pair: BTC/WEGLD (XExchange), XOXNO/WEGLD (XExchange), UTK/USDC (Onedex)
pub const DEXED: [u8; 3] = [BTC, XOXNO, UTK];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RateCfg {
    pub max: u128,
    pub base: u128,
    pub s1: u128,
    pub s2: u128,
    pub s3: u128,
    pub mid: u128,
    pub opt: u128,
    pub rf: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AssetCfg {
    pub ltv: u64,
    pub lt: u64,
    pub bonus: u64,
    pub fee: u64,
    pub collat: bool,
    pub borrow: bool,
    pub isolated: bool,
    pub ceiling: u128,
    pub siloed: bool,
    pub flash: bool,
    pub flash_fee: u64,
    pub iso_borrow: bool,
    pub borrow_cap: u128,
    pub supply_cap: u128,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MarketCfg {
    pub tok: u8,
    pub rate: RateCfg,
    pub ac: AssetCfg,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OracleCfg {
    /// 1 safe, 3 aggregator, 4 mix  (only for BTC / XOXNO / UTK)
    pub method: u8,
    pub first: u64,
    pub last: u64,
    pub stale: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EModeCfg {
    pub ltv: u64,
    pub lt: u64,
    pub bonus: u64,
    pub assets: Vec<(u8, bool, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub t0: u64,
    pub markets: Vec<MarketCfg>,
    pub oracles: Vec<OracleCfg>, // per token
    pub emodes: Vec<EModeCfg>,
    pub borrow_limit: u8,
    pub supply_limit: u8,
    pub users: u8,
    pub nodes: u8,
    pub quorum: u8,
    /// initial USD price (WAD) for FEEDS tokens, indexed by token id
    pub px: Vec<u128>,
    /// liquid-staking rates (WAD) for XEGLD, LEGLD, LXOXNO, indexed by token id
    pub rates: Vec<u128>,
    /// bit 0/1/2: the BTC / XOXNO / UTK pair lists the asset as its second token
    #[serde(default)]
    pub flip: u8,
    /// market 0 is EGLD itself, not its wrapped form
    #[serde(default)]
    pub native: bool,
}

/// Contract addressed by a raw call.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tgt {
    Ctl,
    Pool(u8),
    Agg,
    Template,
    Flash,
    User(u8),
}

/// Action of a programmable counterparty (router / flash borrower).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// send tokens to the caller as one multi-transfer (each separately for the router)
    Send(Vec<(u8, u128)>),
    /// send an account NFT back to the caller
    SendNft(u64),
    /// send units of a semi-fungible token the protocol knows nothing about
    SendSft(u128),
    Call { to: Tgt, func: String, args: Vec<Vec<u8>>, pays: Vec<(u8, u128)>, nft: Option<u64> },
    Fail,
    /// what a price source answers changes from here on (rate; DEX quote num/den; LP reserves and supply)
    Move { tok: u8, v: (u128, u128, u128) },
}
pub type Prog = Vec<Act>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Supply { nft: Option<u64>, to: Option<u64>, emode: Option<u8>, pays: Vec<(u8, u128)> },
    Withdraw { nft: u64, w: Vec<(u8, u128)> },
    Borrow { nft: u64, b: Vec<(u8, u128)> },
    Repay { nonce: u64, pays: Vec<(u8, u128)> },
    Liquidate { nonce: u64, pays: Vec<(u8, u128)> },
    Flash { tok: u8, amount: u128, prog: Prog },
    UpdThreshold { tok: u8, risks: bool, nonces: Vec<u64> },
    UpdIdx { toks: Vec<u8> },
    Clean { nonce: u64 },
    Multiply {
        nft: Option<u64>,
        emode: u8,
        collat: u8,
        amount: u128,
        debt: u8,
        mode: u8,
        pays: Vec<(u8, u128)>,
        steps: Option<Prog>,
        steps_pay: Option<Prog>,
    },
    SwapDebt { nft: u64, old: u8, amount: u128, new: u8, steps: Prog, pays: Vec<(u8, u128)> },
    SwapColl {
        nft: u64,
        cur: u8,
        amount: u128,
        new: u8,
        steps: Prog,
        /// deposits sent along with the swap
        #[serde(default)]
        pays: Vec<(u8, u128)>,
    },
    RepayColl { nft: u64, from: u8, amount: u128, to: u8, close: bool, steps: Option<Prog> },
    Claim { toks: Vec<u8> },
    Rewards { tok: u8, amount: u128 },
    MoveNft { nft: u64, to: u8 },
    // administration
    EditAsset { tok: u8, ac: AssetCfg },
    CreateMarket { m: MarketCfg },
    PoolParams { tok: u8, r: RateCfg },
    UpgradePool { tok: u8 },
    Limits { borrow: u8, supply: u8 },
    Tolerance { tok: u8, first: u64, last: u64 },
    EmAdd { ltv: u64, lt: u64, bonus: u64 },
    EmEdit { id: u8, ltv: u64, lt: u64, bonus: u64, deprecated: bool },
    EmRemove { id: u8 },
    EmAddAsset { tok: u8, id: u8, collat: bool, borrow: bool },
    EmEditAsset { tok: u8, id: u8, collat: bool, borrow: bool },
    EmRemoveAsset { tok: u8, id: u8 },
    PauseCtl,
    UnpauseCtl,
    UpgradeCtl,
    // price aggregator
    Submit { tick: String, ts: u64, price: u128 },
    SubmitBatch { subs: Vec<(u8, u64, u128)> },
    AggPause,
    AggUnpause,
    AggUpgrade,
    AggAdd { nodes: Vec<u8> },
    AggRemove { count: u64, nodes: Vec<u8> },
    AggCount { count: u64 },
    Raw { to: Tgt, func: String, args: Vec<Vec<u8>>, pays: Vec<(u8, u128)>, nft: Option<u64> },
}

pub const OWNER: u8 = 0;
/// oracle node i acts from user index NODE0 + i
pub const NODE0: u8 = 100;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// the chain clock moves (seconds)
    Adv(u64),
    /// the chain clock moves (milliseconds): rounds shorter than a second
    AdvMs(u64),
    /// DEX safe price of a pair: out = in * num / den
    Dex { tok: u8, num: u128, den: u128 },
    /// DEX quotes nothing / wrong token
    DexGone { tok: u8 },
    /// 0 inactive, 1 active, 2 partially active
    PairState { tok: u8, state: u8 },
    Rate { tok: u8, rate: u128 },
    LpRes { tok: u8, r0: u128, r1: u128, supply: u128 },
    Tx { from: u8, op: Op, abort: Option<(u32, bool)> },
    /// fork-based probe: kind chooses what is tried on a copy of the state
    Probe { kind: u16, from: u8, tok: u8, nonce: u64, amount: u128, extra: u64 },
}
