//! Seeded runs, recording, minimisation and replay.
use crate::checks::{self, Check, Ctx, Viol};
use crate::gen::*;
use crate::rng::{mix, Rng};
use crate::spec::Spec;
use crate::types::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub txs: u64,
    pub ok: BTreeMap<String, u64>,
    pub fail: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub sim_ms: u64,
    /// times the property's antecedent held and the oracle judged it
    pub evals: u64,
    pub cases: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub inter: HashSet<u64>,
    pub msgs: BTreeMap<String, u64>,
    pub setup_errors: u64,
}

pub fn h<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Stats {
    /// the oracle judged one case; `key` describes it up to what makes it different
    pub fn judge<T: Hash>(&mut self, what: &'static str, key: T) {
        self.evals += 1;
        *self.cases.entry(what).or_insert(0) += 1;
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h(&(what, key)));
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.txs += o.txs;
        self.sim_ms += o.sim_ms;
        self.evals += o.evals;
        self.setup_errors += o.setup_errors;
        for (k, v) in o.ok {
            *self.ok.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.fail {
            *self.fail.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.cases {
            *self.cases.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.msgs {
            *self.msgs.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        self.states.extend(o.states);
        self.inter.extend(o.inter);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub kind: String,
    pub violation: String,
    pub cfg: Cfg,
    pub steps: Vec<Step>,
}

pub enum Source<'a> {
    Gen(&'a Profile, Rng),
    List(&'a [Step]),
}

pub struct RunOut {
    pub viol: Option<Viol>,
    pub steps: Vec<Step>,
}

pub fn op_name(op: &Op) -> String {
    match op {
        Op::Raw { to, func, .. } => format!(
            "Raw:{}:{}",
            match to {
                Tgt::Ctl => "controller",
                Tgt::Pool(_) => "pool",
                Tgt::Agg => "aggregator",
                Tgt::Template => "template",
                Tgt::Flash => "flash",
                Tgt::User(_) => "user",
            },
            func
        ),
        _ => {
            let s = format!("{:?}", op);
            s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
        }
    }
}

fn abstract_state(s: &Snap, spec: &Spec) -> u64 {
    let mut v: Vec<u8> = vec![spec.paused as u8, spec.agg.paused as u8];
    for (t, p) in &s.pools {
        let u = crate::model::util_q(p);
        let pc = crate::model::ratio(&u, &crate::model::q1());
        v.push(*t);
        v.push((pc * 10.0).clamp(0.0, 255.0) as u8);
        v.push((!num_traits::Zero::is_zero(&p.revenue)) as u8);
    }
    let mut a: Vec<(u8, u8, u8, bool)> =
        s.accts.values().map(|a| (a.dep.len() as u8, a.bor.len() as u8, a.emode, a.iso)).collect();
    a.sort();
    h(&(v, a))
}

/// Undo the effect of skipped/invalid steps: true when the step can be executed here.
fn valid(w: &World, st: &Step) -> bool {
    let has = |t: &u8| w.pools.contains_key(t);
    match st {
        Step::Dex { .. } | Step::DexGone { .. } | Step::PairState { .. } | Step::Rate { .. } | Step::LpRes { .. } => true,
        Step::Adv(_) | Step::AdvMs(_) => true,
        Step::Probe { tok, .. } => has(tok),
        Step::Tx { .. } => true,
    }
}

pub fn run(cfg: &Cfg, src: Source, check: &mut dyn Check, st: &mut Stats) -> RunOut {
    let mut w = World::deploy(cfg);
    let mut spec = Spec::new(cfg);
    let mut rec: Vec<Step> = vec![];
    let mut snap = w.snap();
    st.runs += 1;
    if !w.setup_errors.is_empty() {
        st.setup_errors += 1;
        for m in w.setup_errors.iter() {
            *st.msgs.entry(format!("setup: {}", m)).or_insert(0) += 1;
        }
    }
    check.start(&mut w, &snap, &spec);
    let (mut gen, list, n) = match src {
        Source::Gen(p, mut rng) => {
            let n = rng.range(p.steps.0, p.steps.1) as usize;
            (Some(Gen::new(rng, p.clone(), cfg)), None, n)
        }
        Source::List(l) => (None, Some(l), l.len()),
    };
    let mut hist: Vec<u64> = vec![];
    let mut viol: Option<Viol> = check.setup(&w.setup_errors).err();
    let n = if viol.is_some() { 0 } else { n };
    let t_end = cfg.t0 + 12 * 31_556_926;
    for i in 0..n {
        let step = match (&mut gen, list) {
            (Some(g), _) => g.next(&mut w, &spec, &snap),
            (_, Some(l)) => l[i].clone(),
            _ => break,
        };
        rec.push(step.clone());
        st.steps += 1;
        if !valid(&w, &step) {
            continue;
        }
        let r: Result<(), Viol> = match &step {
            Step::Adv(_) | Step::AdvMs(_) => {
                let now = w.ch.now_ms();
                let d = match step {
                    Step::Adv(d) => d.saturating_mul(1000),
                    Step::AdvMs(d) => d,
                    _ => 0,
                };
                let d = d.min((t_end * 1000).saturating_sub(now)).max(1);
                let round = w.ch.st().current_block_info.block_round;
                w.ch.set_time_ms(now + d, round + d / 6000 + 1);
                st.sim_ms += d;
                snap.now = w.ch.now();
                snap.now_ms = w.ch.now_ms();
                check.env(&mut w, &snap, &step, &spec, st)
            }
            Step::Dex { tok, num, den } => {
                w.apply_dex(*tok, Some((*num, *den)));
                check.env(&mut w, &snap, &step, &spec, st)
            }
            Step::DexGone { tok } => {
                w.apply_dex(*tok, None);
                check.env(&mut w, &snap, &step, &spec, st)
            }
            Step::PairState { tok, state } => {
                w.apply_pair_state(*tok, *state);
                check.env(&mut w, &snap, &step, &spec, st)
            }
            Step::Rate { tok, rate } => {
                w.apply_rate(*tok, *rate);
                check.env(&mut w, &snap, &step, &spec, st)
            }
            Step::LpRes { tok, r0, r1, supply } => {
                w.apply_lp(*tok, *r0, *r1, *supply);
                check.env(&mut w, &snap, &step, &spec, st)
            }
            Step::Probe { .. } => {
                let f = w.fork();
                let r = check.probe(&mut w, &snap, &spec, &step, st);
                w.unfork(f);
                r
            }
            Step::Tx { from, op, abort } => {
                check.before(&mut w, &snap, &spec, *from, op);
                let out = w.exec(*from, op, *abort);
                st.txs += 1;
                let name = op_name(op);
                if out.ok {
                    *st.ok.entry(name.clone()).or_insert(0) += 1;
                } else {
                    *st.fail.entry(name.clone()).or_insert(0) += 1;
                    if st.msgs.len() < 400 {
                        let m: String = out.msg.chars().take(60).collect();
                        *st.msgs.entry(format!("{}: {}", name, m)).or_insert(0) += 1;
                    }
                }
                hist.push(h(&(name, out.ok, *from)));
                if hist.len() >= 4 {
                    let k = &hist[hist.len() - 4..];
                    st.inter.insert(h(&k));
                }
                let spec0 = spec.clone();
                let post = if out.ok || abort.is_some() || check.resnap_failed() { w.snap() } else { snap.clone() };
                if out.ok {
                    spec.apply(*from, op, w.ch.now());
                }
                st.states.insert(abstract_state(&post, &spec));
                let ctx = Ctx {
                    pre: &snap,
                    post: &post,
                    from: *from,
                    op,
                    out: &out,
                    spec0: &spec0,
                    spec: &spec,
                    abort: abort.is_some(),
                };
                let r = check.tx(&mut w, &ctx, st);
                snap = post;
                r
            }
        };
        if let Err(v) = r {
            viol = Some(v);
            break;
        }
    }
    if viol.is_none() {
        if let Err(v) = check.end(&mut w, &snap, &spec, st) {
            viol = Some(v);
        }
    }
    if let Some(g) = gen {
        for (k, v) in g.faults.0 {
            *st.faults.entry(k.to_string()).or_insert(0) += v;
        }
    }
    RunOut { viol, steps: rec }
}

pub fn seed_of(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(verif_seed) ^ h(&prop) ^ mix(idx.wrapping_mul(0x1000_0000_1b3)))
}

pub fn seeded(prop: &str, seed: u64) -> (Profile, Cfg, Rng) {
    let mut rng = Rng::new(seed);
    let p = checks::profile(prop, &mut rng);
    let cfg = gen_cfg(&mut rng, &p);
    (p, cfg, rng)
}

pub fn run_seed(prop: &str, seed: u64, st: &mut Stats) -> (RunOut, Cfg) {
    let (p, cfg, rng) = seeded(prop, seed);
    let mut c = checks::make(prop);
    let o = guarded(|| run(&cfg, Source::Gen(&p, rng), c.as_mut(), st));
    (o, cfg)
}

/// a panic inside the harness is a harness bug, not a violation
fn guarded<F: FnOnce() -> RunOut>(f: F) -> RunOut {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            RunOut { viol: Some(Viol { kind: "harness-panic".into(), msg: m }), steps: vec![] }
        }
    }
}

pub fn replay_list(prop: &str, cfg: &Cfg, steps: &[Step]) -> Option<Viol> {
    let mut st = Stats::default();
    let mut c = checks::make(prop);
    guarded(|| run(cfg, Source::List(steps), c.as_mut(), &mut st)).viol
}

/// ddmin over the step list, then drop entries inside multi-part operations.
pub fn minimise(prop: &str, cfg: &Cfg, steps: Vec<Step>, kind: &str, budget: std::time::Duration) -> Vec<Step> {
    let t0 = std::time::Instant::now();
    let same = |s: &[Step]| -> bool { matches!(replay_list(prop, cfg, s), Some(v) if v.kind == kind) };
    let mut cur = steps;
    if !same(&cur) {
        return cur;
    }
    let mut n = 2usize;
    while cur.len() >= 2 && t0.elapsed() < budget {
        let chunk = (cur.len() + n - 1) / n;
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < budget {
            let j = (i + chunk).min(cur.len());
            let mut cand: Vec<Step> = cur[..i].to_vec();
            cand.extend_from_slice(&cur[j..]);
            if !cand.is_empty() && same(&cand) {
                cur = cand;
                reduced = true;
            } else {
                i = j;
            }
        }
        if !reduced {
            if chunk == 1 {
                break;
            }
            n = (n * 2).min(cur.len());
        } else {
            n = n.max(2).min(cur.len().max(2));
        }
    }
    cur
}
