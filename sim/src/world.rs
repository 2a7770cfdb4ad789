//! One simulated deployment: real controller, pools and price aggregator; stubbed surroundings.
use crate::chain::*;
use crate::enc::{self, Rd};
use crate::types::*;
use multiversx_chain_vm::blockchain::state::BlockchainState;
use num_bigint::{BigInt, BigUint};
use num_traits::Zero;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn bu(v: u128) -> BigUint {
    BigUint::from(v)
}
pub fn bi(v: u128) -> BigInt {
    BigInt::from(v)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolSnap {
    pub supplied: BigInt,
    pub borrowed: BigInt,
    pub bi: BigInt,
    pub si: BigInt,
    pub revenue: BigInt,
    pub last: u64,
    pub bal: BigInt,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pos {
    pub kind: u8,
    pub nonce: u64,
    pub scaled: BigInt,
    pub lt: BigInt,
    pub bonus: BigInt,
    pub fee: BigInt,
    pub ltv: BigInt,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub nonce: u64,
    /// user index holding the account NFT
    pub owner: Option<u8>,
    pub iso: bool,
    pub emode: u8,
    pub mode: u8,
    pub iso_tok: Option<u8>,
    pub dep: BTreeMap<u8, Pos>,
    pub bor: BTreeMap<u8, Pos>,
}

/// Observable protocol state at a step boundary.
#[derive(Clone, Debug)]
pub struct Snap {
    pub now: u64,
    pub now_ms: u64,
    pub pools: BTreeMap<u8, PoolSnap>,
    pub accts: BTreeMap<u64, Acct>,
    /// NFT nonces in existence → holder index (users), None when held by a contract
    pub nfts: BTreeMap<u64, Option<u8>>,
    pub last_nonce: u64,
    pub bals: BTreeMap<(Who, u8), BigInt>,
    pub iso_debt: BTreeMap<u8, BigInt>,
    pub flash_flag: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Who {
    User(u8),
    Ctl,
    Pool(u8),
    Acc,
    Router,
    Flash,
}

/// Environment values the simulator has set (what the stubs answer).
#[derive(Clone, Debug, Default)]
pub struct Env {
    /// pair safe price: token -> Some(num, den) (out raw per in raw)
    pub dex: BTreeMap<u8, Option<(u128, u128)>>,
    pub pair_state: BTreeMap<u8, u8>,
    pub rate: BTreeMap<u8, u128>,
    pub lp: BTreeMap<u8, (u128, u128, u128)>,
}

pub struct World {
    pub ch: Chain,
    pub cfg: Cfg,
    pub env: Env,
    pub owner: Addr,
    pub ctl: Addr,
    pub agg: Addr,
    pub template: Addr,
    pub acc: Addr,
    pub router: Addr,
    pub flash: Addr,
    pub pools: BTreeMap<u8, Addr>,
    pub pairs: BTreeMap<u8, Addr>,
    pub rates: BTreeMap<u8, Addr>,
    pub ctl_nonce: u64,
    pub setup_errors: Vec<String>,
    /// controller storage and accounts at the last observation
    seen: Option<(HashMap<Vec<u8>, Vec<u8>>, BTreeMap<u64, Acct>)>,
}

fn dec_n(v: u128, d: u32) -> Vec<u8> {
    let mut o = enc::nested(&enc::big(&bu(v)));
    o.extend_from_slice(&d.to_be_bytes());
    o
}

pub fn user_addr(i: u8) -> Addr {
    addr_user(i)
}

impl World {
    pub fn deploy(cfg: &Cfg) -> World {
        set_native(cfg.native);
        let mut ch = Chain::new();
        ch.set_time(cfg.t0, cfg.t0 / 6);
        let owner = addr_user(OWNER);
        ch.add_user(&owner);
        for i in 1..=cfg.users {
            ch.add_user(&addr_user(i));
        }
        for i in 0..(cfg.nodes + 3) {
            ch.add_user(&addr_user(NODE0 + i));
        }
        let ctl = addr_sc(K_CONTROLLER, 0);
        let agg = addr_sc(K_AGG, 0);
        let template = addr_sc(K_POOL, 255);
        let acc = addr_sc(K_ACC, 0);
        let safe = addr_sc(K_SAFE, 0);
        let router = addr_sc(K_ROUTER, 0);
        let flash = addr_sc(K_FLASH, 0);
        ch.add_sc(&ctl, "controller", &owner);
        ch.add_sc(&agg, "agg", &owner);
        ch.add_sc(&template, "pool", &owner);
        ch.add_sc(&acc, "acc", &owner);
        ch.add_sc(&safe, "safe", &owner);
        ch.add_sc(&router, "router", &owner);
        ch.add_sc(&flash, "flash", &owner);
        // account NFT collection with its roles
        {
            let a = ch.st_mut().accounts.get_mut(&ctl).unwrap();
            a.esdt.set_roles(
                NFT.as_bytes().to_vec(),
                vec![
                    b"ESDTRoleNFTCreate".to_vec(),
                    b"ESDTRoleNFTBurn".to_vec(),
                    b"ESDTRoleNFTUpdateAttributes".to_vec(),
                    b"ESDTRoleNFTAddQuantity".to_vec(),
                ],
            );
        }
        ch.sset(&ctl, b"account", NFT.as_bytes().to_vec());
        let mut w = World {
            ch,
            cfg: cfg.clone(),
            env: Env::default(),
            owner: owner.clone(),
            ctl: ctl.clone(),
            agg: agg.clone(),
            template: template.clone(),
            acc: acc.clone(),
            router: router.clone(),
            flash: flash.clone(),
            pools: BTreeMap::new(),
            pairs: BTreeMap::new(),
            rates: BTreeMap::new(),
            ctl_nonce: 0,
            setup_errors: vec![],
            seen: None,
        };
        // counterparties own plenty of everything
        let plenty = BigUint::from(10u32).pow(33);
        for a in [&router, &flash] {
            let acc = w.ch.st_mut().accounts.get_mut(a).unwrap();
            acc.esdt.increase_balance(SFT.0.as_bytes().to_vec(), SFT.1, &plenty, Default::default());
        }
        for t in 0..TOKS.len() {
            w.ch.mint(&router, tid(t as u8), &plenty);
            w.ch.mint(&flash, tid(t as u8), &plenty);
            w.ch.mint(&owner, tid(t as u8), &plenty);
            for i in 1..=cfg.users {
                w.ch.mint(&addr_user(i), tid(t as u8), &plenty);
            }
        }
        // price aggregator
        let mut args = vec![enc::u(cfg.quorum as u64)];
        for i in 0..cfg.nodes {
            args.push(enc::a(&addr_user(NODE0 + i)));
        }
        w.must("agg.init", &owner.clone(), &agg, "init", args);
        w.must("agg.unpause", &owner.clone(), &agg, "unpause", vec![]);
        // initial prices: the first `quorum` nodes vote
        for i in 0..cfg.quorum {
            let mut args = vec![];
            for t in FEEDS {
                args.push(enc::s(TOKS[t as usize].tick));
                args.push(enc::s("USD"));
                args.push(enc::u(cfg.t0));
                args.push(enc::big(&bu(cfg.px[t as usize])));
            }
            w.must("agg.submitBatch", &addr_user(NODE0 + i), &agg, "submitBatch", args);
        }
        // pool template
        let r = &cfg.markets[0].rate;
        let ra = w.rate_args(r);
        let mut args = vec![enc::s(tid(WEGLD))];
        args.extend(ra);
        args.push(enc::u(18));
        w.must("template.init", &owner.clone(), &template, "init", args);
        w.must(
            "ctl.init",
            &owner.clone(),
            &ctl,
            "init",
            vec![enc::a(&template), enc::a(&agg), enc::a(&safe), enc::a(&acc), enc::a(&router)],
        );
        w.setup_oracles(&safe);
        let ms = cfg.markets.clone();
        for m in &ms {
            let o = w.exec(OWNER, &Op::CreateMarket { m: m.clone() }, None);
            if !o.ok {
                w.setup_errors.push(format!("create {}: {}", tid(m.tok), o.msg));
            }
        }
        w.must(
            "limits",
            &owner.clone(),
            &ctl,
            "setPositionLimits",
            vec![enc::u(cfg.borrow_limit as u64), enc::u(cfg.supply_limit as u64)],
        );
        for (i, e) in cfg.emodes.iter().enumerate() {
            let o = w.exec(OWNER, &Op::EmAdd { ltv: e.ltv, lt: e.lt, bonus: e.bonus }, None);
            if !o.ok {
                w.setup_errors.push(format!("emode: {}", o.msg));
            }
            for (t, c, b) in &e.assets {
                let o = w.exec(
                    OWNER,
                    &Op::EmAddAsset { tok: *t, id: i as u8 + 1, collat: *c, borrow: *b },
                    None,
                );
                if !o.ok {
                    w.setup_errors.push(format!("emode asset: {}", o.msg));
                }
            }
        }
        w
    }

    fn must(&mut self, what: &str, from: &Addr, to: &Addr, f: &str, args: Vec<Vec<u8>>) {
        let o = self.ch.call(from, to, f, args, &[], None);
        if !o.ok {
            self.setup_errors.push(format!("{}: {}", what, o.msg));
        }
    }

    fn setup_oracles(&mut self, safe: &Addr) {
        let owner = self.owner.clone();
        let px = self.cfg.px.clone();
        // pairs
        let mut mk = |w: &mut World, t: u8, i: u8, t1: u8, t2: u8| {
            let a = addr_sc(K_PAIR, i);
            w.ch.add_sc(&a, "pair", &owner);
            w.ch.sset(&a, b"t1", TOKS[t1 as usize].id.as_bytes().to_vec());
            w.ch.sset(&a, b"t2", TOKS[t2 as usize].id.as_bytes().to_vec());
            w.pairs.insert(t, a);
            w.env.pair_state.insert(t, 1);
            w.apply_pair_state(t, 1);
        };
        mk(self, WEGLD, 0, WEGLD, USDC);
        let flip = self.cfg.flip;
        let mut mkf = |w: &mut World, bit: u8, t: u8, i: u8, q: u8| {
            if flip & bit != 0 {
                mk(w, t, i, q, t)
            } else {
                mk(w, t, i, t, q)
            }
        };
        mkf(self, 1, BTC, 1, WEGLD);
        mkf(self, 2, XOXNO, 2, WEGLD);
        mkf(self, 4, UTK, 3, USDC);
        mk(self, LPA, 4, WEGLD, USDC);
        mk(self, LPB, 5, LXOXNO, WEGLD);
        for (t, i) in [(XEGLD, 0u8), (LEGLD, 1), (LXOXNO, 2)] {
            let a = addr_sc(K_RATE, i);
            self.ch.add_sc(&a, "rate", &owner);
            self.ch.sset(&a, b"main", tid(XOXNO).as_bytes().to_vec());
            self.rates.insert(t, a);
            self.apply_rate(t, self.cfg.rates[t as usize]);
        }
        let _ = safe;
        for t in DEXED {
            let (num, den) = fair_dex(&px, t);
            self.apply_dex(t, Some((num, den)));
        }
        for t in [LPA, LPB] {
            let (r0, r1, s) = fair_lp(&px, &self.cfg.rates, t);
            self.apply_lp(t, r0, r1, s);
        }
        // oracle configuration
        let oc = self.cfg.oracles.clone();
        let pa = |w: &World, t: u8| w.pairs[&t].clone();
        let mut set = |w: &mut World, id: &str, dec: u32, a: Addr, method: u8, ty: u8, src: u8, o: &OracleCfg, pid: Option<u64>| {
            let mut args = vec![
                enc::s(id),
                enc::u(dec as u64),
                enc::a(&a),
                enc::u(method as u64),
                enc::u(ty as u64),
                enc::u(src as u64),
                enc::u(o.first),
                enc::u(o.last),
                enc::u(o.stale),
            ];
            if let Some(p) = pid {
                args.push(enc::u(p));
            }
            let ow = w.owner.clone();
            let c = w.ctl.clone();
            w.must(&format!("oracle {}", id), &ow, &c, "setTokenOracle", args);
        };
        let p0 = pa(self, WEGLD);
        set(self, "EGLD", 18, p0.clone(), 3, 1, 1, &oc[WEGLD as usize], None);
        set(self, wid(), 18, p0.clone(), 3, 1, 1, &oc[WEGLD as usize], None);
        set(self, tid(USDC), 6, p0.clone(), 3, 1, 1, &oc[USDC as usize], None);
        set(self, tid(USDT), 6, p0.clone(), 3, 1, 1, &oc[USDT as usize], None);
        for t in [BTC, XOXNO] {
            let p = pa(self, t);
            set(self, tid(t), tdec(t), p, oc[t as usize].method, 1, 1, &oc[t as usize], None);
        }
        let p = pa(self, UTK);
        set(self, tid(UTK), 18, p, oc[UTK as usize].method, 1, 5, &oc[UTK as usize], Some(7));
        for (t, src) in [(XEGLD, 3u8), (LEGLD, 4), (LXOXNO, 2)] {
            let a = self.rates[&t].clone();
            set(self, tid(t), 18, a, 1, 2, src, &oc[t as usize], None);
        }
        for t in [LPA, LPB] {
            let p = pa(self, t);
            set(self, tid(t), 18, p, 4, 3, 1, &oc[t as usize], None);
        }
    }

    pub fn apply_pair_state(&mut self, t: u8, s: u8) {
        self.env.pair_state.insert(t, s);
        let a = self.pairs[&t].clone();
        self.ch.sset(&a, b"state", if s == 0 { vec![] } else { vec![s] });
        // Onedex keys its pairs by id
        let mut k = b"pair_state".to_vec();
        k.extend_from_slice(&7u32.to_be_bytes());
        self.ch.sset(&a, &k, if s == 0 { vec![] } else { vec![s] });
    }
    pub fn apply_rate(&mut self, t: u8, v: u128) {
        self.env.rate.insert(t, v);
        let a = self.rates[&t].clone();
        self.ch.sset(&a, b"rate", enc::big(&bu(v)));
    }
    pub fn apply_lp(&mut self, t: u8, r0: u128, r1: u128, s: u128) {
        self.env.lp.insert(t, (r0, r1, s));
        let a = self.pairs[&t].clone();
        let mut v = enc::nested(&enc::big(&bu(r0)));
        v.extend(enc::nested(&enc::big(&bu(r1))));
        v.extend(enc::nested(&enc::big(&bu(s))));
        self.ch.sset(&a, b"r", v);
    }
    pub fn apply_dex(&mut self, t: u8, q: Option<(u128, u128)>) {
        self.env.dex.insert(t, q);
        let a = self.pairs[&t].clone();
        let tok = tid(t).as_bytes();
        if t == UTK {
            let mut k = b"q".to_vec();
            k.extend(enc::nested(tok));
            let v = match q {
                Some((n, d)) => {
                    let mut v = enc::nested(&enc::big(&bu(n)));
                    v.extend(enc::nested(&enc::big(&bu(d))));
                    v
                }
                None => vec![],
            };
            self.ch.sset(&a, &k, v);
        } else {
            let safe = addr_sc(K_SAFE, 0);
            let mut k = b"q".to_vec();
            k.extend_from_slice(a.as_bytes());
            k.extend(enc::nested(tok));
            let v = match q {
                Some((n, d)) => {
                    let mut v = enc::nested(wid().as_bytes());
                    v.extend(enc::nested(&enc::big(&bu(n))));
                    v.extend(enc::nested(&enc::big(&bu(d))));
                    v
                }
                None => vec![],
            };
            self.ch.sset(&safe, &k, v);
        }
    }

    fn rate_args(&self, r: &RateCfg) -> Vec<Vec<u8>> {
        vec![
            enc::big(&bu(r.max)),
            enc::big(&bu(r.base)),
            enc::big(&bu(r.s1)),
            enc::big(&bu(r.s2)),
            enc::big(&bu(r.s3)),
            enc::big(&bu(r.mid)),
            enc::big(&bu(r.opt)),
            enc::u(r.rf),
        ]
    }

    pub fn tgt(&self, t: &Tgt) -> Addr {
        match t {
            Tgt::Ctl => self.ctl.clone(),
            Tgt::Pool(t) => self.pools.get(t).cloned().unwrap_or_else(|| self.template.clone()),
            Tgt::Agg => self.agg.clone(),
            Tgt::Template => self.template.clone(),
            Tgt::Flash => self.flash.clone(),
            Tgt::User(i) => addr_user(*i),
        }
    }

    /// the call that makes a price source answer differently
    fn mover(&self, t: u8, v: (u128, u128, u128)) -> (Addr, &'static str, Vec<Vec<u8>>) {
        let b = |x: u128| enc::big(&bu(x));
        match t {
            XEGLD | LEGLD | LXOXNO => (self.rates[&t].clone(), "mv", vec![b(v.0)]),
            LPA | LPB => (self.pairs[&t].clone(), "mvr", vec![b(v.0), b(v.1), b(v.2)]),
            UTK => (self.pairs[&t].clone(), "mvq", vec![enc::s(tid(t)), b(v.0), b(v.1)]),
            _ => (
                addr_sc(K_SAFE, 0),
                "mv",
                vec![enc::a(&self.pairs[&t]), enc::s(tid(t)), enc::s(wid()), b(v.0), b(v.1)],
            ),
        }
    }
    /// after a transaction in which sources moved: record what they answer now
    fn sync_env(&mut self, op: &Op) {
        let progs: Vec<&Prog> = match op {
            Op::Multiply { steps, steps_pay, .. } => steps.iter().chain(steps_pay.iter()).collect(),
            Op::SwapDebt { steps, .. } | Op::SwapColl { steps, .. } => vec![steps],
            Op::RepayColl { steps, .. } => steps.iter().collect(),
            Op::Flash { prog, .. } => vec![prog],
            _ => vec![],
        };
        for a in progs.into_iter().flatten() {
            let Act::Move { tok, v } = a else { continue };
            let t = *tok;
            // only if that program was actually run
            let (mut e, rec) = (self.env.clone(), |e: &mut Env| match t {
                XEGLD | LEGLD | LXOXNO => {
                    e.rate.insert(t, v.0);
                }
                LPA | LPB => {
                    e.lp.insert(t, *v);
                }
                _ => {
                    e.dex.insert(t, Some((v.0, v.1)));
                }
            });
            rec(&mut e);
            let (a, key, want) = match t {
                XEGLD | LEGLD | LXOXNO => (self.rates[&t].clone(), b"rate".to_vec(), enc::big(&bu(v.0))),
                LPA | LPB => {
                    let mut x = enc::nested(&enc::big(&bu(v.0)));
                    x.extend(enc::nested(&enc::big(&bu(v.1))));
                    x.extend(enc::nested(&enc::big(&bu(v.2))));
                    (self.pairs[&t].clone(), b"r".to_vec(), x)
                }
                _ => {
                    let mut k = b"q".to_vec();
                    let mut x = vec![];
                    let a = if t == UTK {
                        self.pairs[&t].clone()
                    } else {
                        k.extend_from_slice(self.pairs[&t].as_bytes());
                        x.extend(enc::nested(wid().as_bytes()));
                        addr_sc(K_SAFE, 0)
                    };
                    k.extend(enc::nested(tid(t).as_bytes()));
                    x.extend(enc::nested(&enc::big(&bu(v.0))));
                    x.extend(enc::nested(&enc::big(&bu(v.1))));
                    (a, k, x)
                }
            };
            if self.ch.sget(&a, &key) == want {
                self.env = e;
            }
        }
    }

    pub fn prog(&self, p: &Prog) -> Vec<u8> {
        let mut o = vec![];
        let pays_enc = |pays: &[(u8, u128)], nft: Option<u64>| {
            let mut v = vec![];
            if let Some(n) = nft {
                v.extend(enc::payment(NFT, n, &bu(1)));
            }
            for (t, a) in pays {
                v.extend(enc::payment(tid(*t), 0, &bu(*a)));
            }
            // count prefix for a nested ManagedVec
            let n = pays.len() as u32 + nft.is_some() as u32;
            let mut r = n.to_be_bytes().to_vec();
            r.extend(v);
            r
        };
        for a in p {
            match a {
                Act::Send(pays) => {
                    o.push(0u8);
                    o.extend(enc::nested(&[]));
                    o.extend(enc::nested(&[]));
                    o.extend(pays_enc(pays, None));
                    o.extend(0u32.to_be_bytes());
                }
                Act::SendSft(n) => {
                    o.push(0u8);
                    o.extend(enc::nested(&[]));
                    o.extend(enc::nested(&[]));
                    o.extend(1u32.to_be_bytes());
                    o.extend(enc::payment(SFT.0, SFT.1, &bu(*n)));
                    o.extend(0u32.to_be_bytes());
                }
                Act::SendNft(n) => {
                    o.push(0u8);
                    o.extend(enc::nested(&[]));
                    o.extend(enc::nested(&[]));
                    o.extend(pays_enc(&[], Some(*n)));
                    o.extend(0u32.to_be_bytes());
                }
                Act::Call { to, func, args, pays, nft } => {
                    o.push(1u8);
                    o.extend(enc::nested(self.tgt(to).as_bytes()));
                    o.extend(enc::nested(func.as_bytes()));
                    o.extend(pays_enc(pays, *nft));
                    o.extend((args.len() as u32).to_be_bytes());
                    for x in args {
                        o.extend(enc::nested(x));
                    }
                }
                Act::Move { tok, v } => {
                    let (to, func, args) = self.mover(*tok, *v);
                    o.push(1u8);
                    o.extend(enc::nested(to.as_bytes()));
                    o.extend(enc::nested(func.as_bytes()));
                    o.extend(pays_enc(&[], None));
                    o.extend((args.len() as u32).to_be_bytes());
                    for x in args {
                        o.extend(enc::nested(&x));
                    }
                }
                Act::Fail => {
                    o.push(2u8);
                    o.extend(enc::nested(&[]));
                    o.extend(enc::nested(&[]));
                    o.extend(0u32.to_be_bytes());
                    o.extend(0u32.to_be_bytes());
                }
            }
        }
        o
    }
    pub fn steps(&self, p: &Prog) -> Vec<u8> {
        if p.is_empty() {
            vec![]
        } else {
            enc::argbuf(&[self.prog(p)])
        }
    }

    /// Operation → concrete transaction.
    pub fn lower(&self, op: &Op) -> (Addr, String, Vec<Vec<u8>>, Vec<Pay>) {
        let ctl = self.ctl.clone();
        let pay = |v: &[(u8, u128)]| -> Vec<Pay> {
            v.iter().map(|(t, a)| (tid(*t).to_string(), 0u64, bu(*a))).collect()
        };
        let nftp = |n: u64| -> Pay { (NFT.to_string(), n, bu(1)) };
        let pt = |t: &u8, a: &u128| enc::payment(tid(*t), 0, &bu(*a));
        let ac_args = |tok: u8, c: &AssetCfg| -> Vec<Vec<u8>> {
            vec![
                enc::s(tid(tok)),
                enc::u(c.ltv),
                enc::u(c.lt),
                enc::u(c.bonus),
                enc::u(c.fee),
                enc::b(c.isolated),
                enc::big(&bu(c.ceiling)),
                enc::b(c.siloed),
                enc::b(c.flash),
                enc::u(c.flash_fee),
                enc::b(c.collat),
                enc::b(c.borrow),
                enc::b(c.iso_borrow),
                enc::big(&bu(c.borrow_cap)),
                enc::big(&bu(c.supply_cap)),
            ]
        };
        let f = |s: &str| s.to_string();
        match op {
            Op::Supply { nft, to, emode, pays } => {
                let mut p = vec![];
                if let Some(n) = nft {
                    p.push(nftp(*n));
                }
                p.extend(pay(pays));
                let mut a = vec![];
                if let Some(n) = to {
                    a.push(enc::u(*n));
                }
                if let Some(e) = emode {
                    if a.is_empty() {
                        a.push(enc::u(0));
                    }
                    a.push(enc::u(*e as u64));
                }
                (ctl, f("supply"), a, p)
            }
            Op::Withdraw { nft, w } => {
                (ctl, f("withdraw"), w.iter().map(|(t, a)| pt(t, a)).collect(), vec![nftp(*nft)])
            }
            Op::Borrow { nft, b } => {
                (ctl, f("borrow"), b.iter().map(|(t, a)| pt(t, a)).collect(), vec![nftp(*nft)])
            }
            Op::Repay { nonce, pays } => (ctl, f("repay"), vec![enc::u(*nonce)], pay(pays)),
            Op::Liquidate { nonce, pays } => (ctl, f("liquidate"), vec![enc::u(*nonce)], pay(pays)),
            Op::Flash { tok, amount, prog } => (
                ctl,
                f("flashLoan"),
                vec![
                    enc::s(tid(*tok)),
                    enc::big(&bu(*amount)),
                    enc::a(&self.flash),
                    enc::s("go"),
                    enc::argbuf(&[self.prog(prog)]),
                ],
                vec![],
            ),
            Op::UpdThreshold { tok, risks, nonces } => {
                let mut a = vec![enc::s(tid(*tok)), enc::b(*risks)];
                a.extend(nonces.iter().map(|n| enc::u(*n)));
                (ctl, f("updateAccountThreshold"), a, vec![])
            }
            Op::UpdIdx { toks } => {
                (ctl, f("updateIndexes"), toks.iter().map(|t| enc::s(tid(*t))).collect(), vec![])
            }
            Op::Clean { nonce } => (ctl, f("cleanBadDebt"), vec![enc::u(*nonce)], vec![]),
            Op::Multiply { nft, emode, collat, amount, debt, mode, pays, steps, steps_pay } => {
                let mut p = vec![];
                if let Some(n) = nft {
                    p.push(nftp(*n));
                }
                p.extend(pay(pays));
                let mut a = vec![
                    enc::u(*emode as u64),
                    enc::s(tid(*collat)),
                    enc::big(&bu(*amount)),
                    enc::s(tid(*debt)),
                    enc::u(*mode as u64),
                    self.steps(steps.as_ref().unwrap_or(&vec![])),
                ];
                if let Some(sp) = steps_pay {
                    a.push(self.steps(sp));
                }
                (ctl, f("multiply"), a, p)
            }
            Op::SwapDebt { nft, old, amount, new, steps, pays } => {
                let mut p = vec![nftp(*nft)];
                p.extend(pay(pays));
                (
                    ctl,
                    f("swapDebt"),
                    vec![enc::s(tid(*old)), enc::big(&bu(*amount)), enc::s(tid(*new)), self.steps(steps)],
                    p,
                )
            }
            Op::SwapColl { nft, cur, amount, new, steps, pays } => {
                let mut p = vec![nftp(*nft)];
                p.extend(pay(pays));
                (
                    ctl,
                    f("swapCollateral"),
                    vec![enc::s(tid(*cur)), enc::big(&bu(*amount)), enc::s(tid(*new)), self.steps(steps)],
                    p,
                )
            }
            Op::RepayColl { nft, from, amount, to, close, steps } => {
                let mut a = vec![
                    enc::s(tid(*from)),
                    enc::big(&bu(*amount)),
                    enc::s(tid(*to)),
                    enc::b(*close),
                ];
                if let Some(s) = steps {
                    a.push(self.steps(s));
                }
                (ctl, f("repayDebtWithCollateral"), a, vec![nftp(*nft)])
            }
            Op::Claim { toks } => {
                (ctl, f("claimRevenue"), toks.iter().map(|t| enc::s(tid(*t))).collect(), vec![])
            }
            Op::Rewards { tok, amount } => (ctl, f("addRewards"), vec![], pay(&[(*tok, *amount)])),
            Op::MoveNft { nft, to } => (addr_user(*to), String::new(), vec![], vec![nftp(*nft)]),
            Op::EditAsset { tok, ac } => (ctl, f("editAssetConfig"), ac_args(*tok, ac), vec![]),
            Op::CreateMarket { m } => {
                let c = &m.ac;
                let mut a = vec![enc::s(tid(m.tok))];
                a.extend(self.rate_args(&m.rate));
                a.extend(vec![
                    enc::u(c.ltv),
                    enc::u(c.lt),
                    enc::u(c.bonus),
                    enc::u(c.fee),
                    enc::b(c.collat),
                    enc::b(c.borrow),
                    enc::b(c.isolated),
                    enc::big(&bu(c.ceiling)),
                    enc::u(c.flash_fee),
                    enc::b(c.siloed),
                    enc::b(c.flash),
                    enc::b(c.iso_borrow),
                    enc::u(tdec(m.tok) as u64),
                    enc::big(&bu(c.borrow_cap)),
                    enc::big(&bu(c.supply_cap)),
                ]);
                (ctl, f("createLiquidityPool"), a, vec![])
            }
            Op::PoolParams { tok, r } => {
                let mut a = vec![enc::s(tid(*tok))];
                a.extend(self.rate_args(r));
                (ctl, f("upgradeLiquidityPoolParams"), a, vec![])
            }
            Op::UpgradePool { tok } => (ctl, f("upgradeLiquidityPool"), vec![enc::s(tid(*tok))], vec![]),
            Op::Limits { borrow, supply } => {
                (ctl, f("setPositionLimits"), vec![enc::u(*borrow as u64), enc::u(*supply as u64)], vec![])
            }
            Op::Tolerance { tok, first, last } => (
                ctl,
                f("editTokenOracleTolerance"),
                vec![enc::s(tid(*tok)), enc::u(*first), enc::u(*last)],
                vec![],
            ),
            Op::EmAdd { ltv, lt, bonus } => {
                (ctl, f("addEModeCategory"), vec![enc::u(*ltv), enc::u(*lt), enc::u(*bonus)], vec![])
            }
            Op::EmEdit { id, ltv, lt, bonus, deprecated } => {
                let mut v = vec![*id];
                v.extend(dec_n(*ltv as u128, 4));
                v.extend(dec_n(*lt as u128, 4));
                v.extend(dec_n(*bonus as u128, 4));
                v.push(*deprecated as u8);
                (ctl, f("editEModeCategory"), vec![v], vec![])
            }
            Op::EmRemove { id } => (ctl, f("removeEModeCategory"), vec![enc::u(*id as u64)], vec![]),
            Op::EmAddAsset { tok, id, collat, borrow } => (
                ctl,
                f("addAssetToEModeCategory"),
                vec![enc::s(tid(*tok)), enc::u(*id as u64), enc::b(*collat), enc::b(*borrow)],
                vec![],
            ),
            Op::EmEditAsset { tok, id, collat, borrow } => (
                ctl,
                f("editAssetInEModeCategory"),
                vec![enc::s(tid(*tok)), enc::u(*id as u64), vec![*collat as u8, *borrow as u8]],
                vec![],
            ),
            Op::EmRemoveAsset { tok, id } => (
                ctl,
                f("removeAssetFromEModeCategory"),
                vec![enc::s(tid(*tok)), enc::u(*id as u64)],
                vec![],
            ),
            Op::PauseCtl => (ctl, f("pause"), vec![], vec![]),
            Op::UnpauseCtl => (ctl, f("unpause"), vec![], vec![]),
            Op::UpgradeCtl => (ctl, f("upgrade"), vec![], vec![]),
            Op::Submit { tick, ts, price } => (
                self.agg.clone(),
                f("submit"),
                vec![enc::s(tick), enc::s("USD"), enc::u(*ts), enc::big(&bu(*price))],
                vec![],
            ),
            Op::SubmitBatch { subs } => {
                let mut a = vec![];
                for (t, ts, p) in subs {
                    a.push(enc::s(TOKS[*t as usize].tick));
                    a.push(enc::s("USD"));
                    a.push(enc::u(*ts));
                    a.push(enc::big(&bu(*p)));
                }
                (self.agg.clone(), f("submitBatch"), a, vec![])
            }
            Op::AggPause => (self.agg.clone(), f("pause"), vec![], vec![]),
            Op::AggUnpause => (self.agg.clone(), f("unpause"), vec![], vec![]),
            Op::AggUpgrade => (self.agg.clone(), f("upgrade"), vec![], vec![]),
            Op::AggAdd { nodes } => (
                self.agg.clone(),
                f("addOracles"),
                nodes.iter().map(|n| enc::a(&addr_user(NODE0 + n))).collect(),
                vec![],
            ),
            Op::AggRemove { count, nodes } => {
                let mut a = vec![enc::u(*count)];
                a.extend(nodes.iter().map(|n| enc::a(&addr_user(NODE0 + n))));
                (self.agg.clone(), f("removeOracles"), a, vec![])
            }
            Op::AggCount { count } => (self.agg.clone(), f("setSubmissionCount"), vec![enc::u(*count)], vec![]),
            Op::Raw { to, func, args, pays, nft } => {
                let mut p = vec![];
                if let Some(n) = nft {
                    p.push(nftp(*n));
                }
                p.extend(pay(pays));
                (self.tgt(to), func.clone(), args.clone(), p)
            }
        }
    }

    pub fn exec(&mut self, from: u8, op: &Op, abort: Option<(u32, bool)>) -> Out {
        let (to, func, args, pays) = self.lower(op);
        let from_a = addr_user(from);
        if let Op::AggAdd { nodes } = op {
            for n in nodes {
                let a = addr_user(NODE0 + n);
                if !self.ch.st().accounts.contains_key(&a) {
                    self.ch.add_user(&a);
                }
            }
        }
        if let Op::CreateMarket { m } = op {
            // the address the VM will give the next contract the controller deploys
            let a = addr_sc(K_POOL, if self.pools.contains_key(&m.tok) { m.tok + 100 } else { m.tok });
            let n = self.ch.st().accounts.get(&self.ctl).map(|x| x.nonce).unwrap_or(0);
            let ctl = self.ctl.clone();
            self.ch.st_mut().new_addresses.insert((ctl, n), a.clone());
            let o = self.ch.call(&from_a, &to, &func, args, &pays, abort);
            if o.ok {
                self.pools.insert(m.tok, a);
            }
            return o;
        }
        let o = self.ch.call(&from_a, &to, &func, args, &pays, abort);
        if o.ok {
            self.sync_env(op);
        }
        o
    }

    // ---------------------------------------------------------------- observation

    pub fn iso_debt(&mut self, t: u8) -> BigInt {
        let ctl = self.ctl.clone();
        let o = self.ch.query(&ctl, "getIsolatedAssetDebtUsd", vec![enc::s(tid(t))]);
        let (v, d) = o.values.first().map(|v| enc::dec_top2(v)).unwrap_or_default();
        if d <= 18 {
            v * BigInt::from(10u32).pow(18 - d)
        } else {
            v / BigInt::from(10u32).pow(d - 18)
        }
    }

    pub fn pool_snap(&self, t: u8) -> PoolSnap {
        let a = &self.pools[&t];
        let acc = self.ch.st().accounts.get(a).unwrap();
        let d = |k: &[u8]| acc.storage.get(k).map(|v| enc::dec_top(v)).unwrap_or_default();
        PoolSnap {
            supplied: d(b"supplied"),
            borrowed: d(b"borrowed"),
            bi: d(b"borrow_index"),
            si: d(b"supply_index"),
            revenue: d(b"revenue"),
            last: acc.storage.get(&b"last_timestamp"[..]).map(|v| enc::to_u64(v)).unwrap_or(0),
            bal: BigInt::from(self.ch.bal(&a, tid(t))),
        }
    }

    pub fn who_addr(&self, w: Who) -> Option<Addr> {
        Some(match w {
            Who::User(i) => addr_user(i),
            Who::Ctl => self.ctl.clone(),
            Who::Pool(t) => self.pools.get(&t)?.clone(),
            Who::Acc => self.acc.clone(),
            Who::Router => self.router.clone(),
            Who::Flash => self.flash.clone(),
        })
    }

    pub fn holders(&self) -> Vec<Who> {
        let mut v: Vec<Who> = (0..=self.cfg.users).map(Who::User).collect();
        v.push(Who::Ctl);
        v.push(Who::Acc);
        v.push(Who::Router);
        v.push(Who::Flash);
        v.extend(self.pools.keys().map(|t| Who::Pool(*t)));
        v
    }

    pub fn positions(&mut self, nonce: u64, kind: u8) -> BTreeMap<u8, Pos> {
        let ctl = self.ctl.clone();
        let o = self.ch.query(&ctl, "getPositions", vec![enc::u(nonce), enc::u(kind as u64)]);
        let mut m = BTreeMap::new();
        for kv in o.values.chunks(2) {
            if kv.len() < 2 {
                continue;
            }
            let id = String::from_utf8_lossy(&kv[0]).to_string();
            let mut r = Rd::new(&kv[1]);
            let k = r.u8();
            let _id = r.str();
            let scaled = r.dec().0;
            let n = r.u64();
            let lt = r.dec().0;
            let bonus = r.dec().0;
            let fee = r.dec().0;
            let ltv = r.dec().0;
            if let Some(t) = tok_by_id(&id) {
                m.insert(t, Pos { kind: k, nonce: n, scaled, lt, bonus, fee, ltv });
            }
        }
        m
    }

    pub fn account_nonces(&mut self) -> BTreeSet<u64> {
        let ctl = self.ctl.clone();
        let o = self.ch.query(&ctl, "getAccounts", vec![]);
        o.values.iter().map(|v| enc::to_u64(v)).collect()
    }

    pub fn nft_holder(&self, nonce: u64) -> Option<u8> {
        (0..=self.cfg.users).find(|i| !self.ch.bal_n(&addr_user(*i), NFT, nonce).is_zero())
    }

    pub fn acct(&mut self, nonce: u64) -> Acct {
        let ctl = self.ctl.clone();
        let o = self.ch.query(&ctl, "getAccountAttributes", vec![enc::u(nonce)]);
        let v = o.values.first().cloned().unwrap_or_default();
        let mut r = Rd::new(&v);
        let iso = r.bool();
        let emode = r.u8();
        let mode = r.u8();
        let iso_tok = if r.u8() == 1 { tok_by_id(&r.str()) } else { None };
        let dep = self.positions(nonce, 1);
        let bor = self.positions(nonce, 2);
        Acct { nonce, owner: self.nft_holder(nonce), iso, emode, mode, iso_tok, dep, bor }
    }

    /// Every open account as the views report it. Views are asked again only for accounts whose
    /// number occurs in a storage key that changed, or for all when another key changed.
    fn all_accts(&mut self) -> BTreeMap<u64, Acct> {
        let st = self.ch.st().accounts.get(&self.ctl).map(|a| &a.storage);
        let cur: HashMap<Vec<u8>, Vec<u8>> = st.cloned().unwrap_or_default();
        let mut all = true;
        let mut stale: BTreeSet<u64> = BTreeSet::new();
        let old = self.seen.take();
        if let Some((prev, accts)) = &old {
            all = false;
            let nums: Vec<(u64, [u8; 8])> = accts.keys().map(|n| (*n, n.to_be_bytes())).collect();
            let keys = cur.iter().filter(|(k, v)| prev.get(*k) != Some(v)).map(|x| x.0).chain(prev.keys().filter(|k| !cur.contains_key(*k)));
            for k in keys {
                let mut hit = false;
                for (n, b) in &nums {
                    if k.windows(8).any(|x| x == b) {
                        stale.insert(*n);
                        hit = true;
                    }
                }
                if !hit {
                    all = true;
                    break;
                }
            }
        }
        let ns = self.account_nonces();
        let mut known = old.map(|x| x.1).unwrap_or_default();
        let mut out = BTreeMap::new();
        for n in ns {
            let a = match known.remove(&n) {
                Some(mut a) if !all && !stale.contains(&n) => {
                    a.owner = self.nft_holder(n);
                    a
                }
                _ => self.acct(n),
            };
            out.insert(n, a);
        }
        self.seen = Some((cur, out.clone()));
        out
    }

    pub fn snap(&mut self) -> Snap {
        let (now, now_ms) = (self.ch.now(), self.ch.now_ms());
        let pools: BTreeMap<u8, PoolSnap> = self.pools.keys().map(|t| (*t, self.pool_snap(*t))).collect();
        let accts = self.all_accts();
        let mut nfts = BTreeMap::new();
        for i in 0..=self.cfg.users {
            let a = addr_user(i);
            if let Some(acc) = self.ch.st().accounts.get(&a) {
                if let Some(d) = acc.esdt.get_by_identifier(NFT.as_bytes()) {
                    for (n, inst) in d.instances.get_instances().iter() {
                        if !inst.balance.is_zero() {
                            nfts.insert(*n, Some(i));
                        }
                    }
                }
            }
        }
        for who in [Who::Ctl, Who::Router, Who::Flash, Who::Acc] {
            let a = self.who_addr(who).unwrap();
            if let Some(acc) = self.ch.st().accounts.get(&a) {
                if let Some(d) = acc.esdt.get_by_identifier(NFT.as_bytes()) {
                    for (n, inst) in d.instances.get_instances().iter() {
                        if !inst.balance.is_zero() {
                            nfts.insert(*n, None);
                        }
                    }
                }
            }
        }
        let mut bals = BTreeMap::new();
        let mut toks: Vec<u8> = self.pools.keys().cloned().collect();
        toks.push(JUNK);
        for w in self.holders() {
            let a = self.who_addr(w).unwrap();
            for t in &toks {
                let b = self.ch.bal(&a, tid(*t));
                bals.insert((w, *t), BigInt::from(b));
            }
        }
        let ctl = self.ctl.clone();
        let mut iso_debt = BTreeMap::new();
        for t in self.pools.keys().cloned().collect::<Vec<_>>() {
            iso_debt.insert(t, self.iso_debt(t));
        }
        let o = self.ch.query(&ctl, "isFlashLoanOngoing", vec![]);
        let flash_flag = o.values.first().map(|v| !v.is_empty()).unwrap_or(false);
        let o = self.ch.query(&ctl, "getAccountNonce", vec![]);
        let last_nonce = o.values.first().map(|v| enc::to_u64(v)).unwrap_or(0);
        Snap { now, now_ms, pools, accts, nfts, last_nonce, bals, iso_debt, flash_flag }
    }

    /// EGLD price (WAD) the protocol reports, None if it refuses to quote.
    pub fn px_egld(&mut self, t: u8) -> Option<BigInt> {
        let ctl = self.ctl.clone();
        let o = self.ch.query(&ctl, "getTokenPriceEGLD", vec![enc::s(tid(t))]);
        if o.ok {
            o.values.first().map(|v| enc::dec_top(v))
        } else {
            None
        }
    }
    pub fn px_usd(&mut self, t: u8) -> Option<BigInt> {
        let ctl = self.ctl.clone();
        let o = self.ch.query(&ctl, "getTokenPriceUSD", vec![enc::s(tid(t))]);
        if o.ok {
            o.values.first().map(|v| enc::dec_top(v))
        } else {
            None
        }
    }
    pub fn view_dec(&mut self, f: &str, args: Vec<Vec<u8>>) -> Option<BigInt> {
        let ctl = self.ctl.clone();
        let o = self.ch.query(&ctl, f, args);
        if o.ok {
            Some(o.values.first().map(|v| enc::dec_top(v)).unwrap_or_default())
        } else {
            None
        }
    }
    pub fn fork(&self) -> (BlockchainState, Env, BTreeMap<u8, Addr>) {
        (self.ch.snapshot(), self.env.clone(), self.pools.clone())
    }
    pub fn unfork(&mut self, f: (BlockchainState, Env, BTreeMap<u8, Addr>)) {
        self.ch.restore(f.0);
        self.env = f.1;
        self.pools = f.2;
    }
}

pub type Prices = HashMap<u8, BigInt>;

/// fair DEX quote for t given USD prices
pub fn fair_dex(px: &[u128], t: u8) -> (u128, u128) {
    // out raw per one whole token in
    let den = 10u128.pow(tdec(t));
    let (q, qd) = if t == UTK { (USDC, 6u32) } else { (WEGLD, 18) };
    // price_t/price_q * 10^qd
    let num = mul_div(px[t as usize], 10u128.pow(qd), px[q as usize]);
    (num.max(1), den)
}
pub fn mul_div(a: u128, b: u128, c: u128) -> u128 {
    let r = bu(a) * bu(b) / bu(c.max(1));
    let d = r.to_u64_digits();
    match d.len() {
        0 => 0,
        1 => d[0] as u128,
        2 => (d[1] as u128) << 64 | d[0] as u128,
        _ => u128::MAX,
    }
}
/// reserves of a 50/50 pool worth about $10m
pub fn fair_lp(px: &[u128], rates: &[u128], t: u8) -> (u128, u128, u128) {
    let side = 5_000_000u128 * WAD;
    if t == LPA {
        let r0 = mul_div(side, WAD, px[WEGLD as usize]);
        let r1 = mul_div(side, 1_000_000, px[USDC as usize]);
        (r0, r1, 1_000_000u128 * WAD)
    } else {
        let plx = mul_div(px[XOXNO as usize], rates[LXOXNO as usize], WAD);
        let r0 = mul_div(side, WAD, plx);
        let r1 = mul_div(side, WAD, px[WEGLD as usize]);
        (r0, r1, 2_000_000u128 * WAD)
    }
}
