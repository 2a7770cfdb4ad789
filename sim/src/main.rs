//! lendsim: deterministic simulation of the lending protocol.
//!   lendsim check --property P01 --tier quick|thorough [--runs N] [--secs S]
//!   lendsim replay FILE
//!   lendsim run --property P01 --seed N        (one run, for debugging)
mod chain;
mod checks;
mod enc;
mod engine;
mod gen;
mod model;
mod rng;
mod spec;
mod stubs;
mod types;
mod world;

use engine::*;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
/// The VM prints every contract error to stdout; keep our own lines apart.
fn own_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            let fd = dup(1);
            if fd >= 0 && dup2(null.as_raw_fd(), 1) >= 0 {
                *OUT.lock().unwrap() = Some(std::fs::File::from_raw_fd(fd));
            }
        }
    }
}
fn say(s: String) {
    use std::io::Write;
    match OUT.lock().unwrap().as_mut() {
        Some(f) => {
            let _ = writeln!(f, "{}", s);
        }
        None => println!("{}", s),
    }
}
macro_rules! say {
    ($($t:tt)*) => { say(format!($($t)*)) };
}

fn arg(v: &[String], k: &str) -> Option<String> {
    v.iter().position(|x| x == k).and_then(|i| v.get(i + 1)).cloned()
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

struct Known {
    kind: String,
    contains: String,
    text: String,
}
/// "known: property=<id> kind=<kind> contains=<text> | <what fails>"
fn known(prop: &str) -> Vec<Known> {
    let mut out = vec![];
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let (head, text) = r.split_once(" | ").unwrap_or((r, ""));
        let Some(head) = head.strip_prefix(&format!("property={} kind=", prop)) else { continue };
        let Some((kind, contains)) = head.split_once(" contains=") else { continue };
        out.push(Known { kind: kind.into(), contains: contains.into(), text: text.into() });
    }
    out
}

/// runs a quick check makes, sized so that one check stays near half a minute
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "P26" => 2000,
        "P27" => 1200,
        _ => 1500,
    }
}

fn main() {
    if std::env::var("LENDSIM_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    own_stdout();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&a)),
        Some("replay") => std::process::exit(replay(&a[2])),
        Some("run") => {
            let p = arg(&a, "--property").unwrap();
            let seed: u64 = arg(&a, "--seed").unwrap().parse().unwrap();
            let mut st = Stats::default();
            let (o, cfg) = run_seed(&p, seed, &mut st);
            if a.iter().any(|x| x == "-v") {
                say!("{:#?}", cfg);
                for s in &o.steps {
                    say!("{:?}", s);
                }
            }
            say!("steps {} viol {:?} ok {:?} fail {:?}", o.steps.len(), o.viol, st.ok, st.fail);
        }
        Some("list") => {
            for i in checks::IDS {
                say!("{}", i);
            }
        }
        _ => {
            eprintln!("usage: lendsim check --property ID --tier quick|thorough | replay FILE");
            std::process::exit(2);
        }
    }
}

fn replay(f: &str) -> i32 {
    let s = std::fs::read_to_string(f).expect("replay file");
    let r: Replay = serde_json::from_str(&s).expect("replay file format");
    match replay_list(&r.property, &r.cfg, &r.steps) {
        Some(v) => {
            say!("{}: {}", v.kind, v.msg);
            say!("recorded: {}: {}", r.kind, r.violation);
            say!("identical: {}", v.kind == r.kind && v.msg == r.violation);
            say!("VIOLATION property={} replay={}", r.property, f);
            1
        }
        None => {
            say!("replay of {} steps: no violation", r.steps.len());
            0
        }
    }
}

struct Found {
    idx: u64,
    seed: u64,
    viol: checks::Viol,
    cfg: types::Cfg,
    steps: Vec<types::Step>,
}

fn check(a: &[String]) -> i32 {
    let prop = arg(a, "--property").expect("--property");
    let tier = arg(a, "--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads: u64 = arg(a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let thorough = tier == "thorough";
    let runs: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { u64::MAX } else { quick_runs(&prop) });
    let secs: u64 = arg(a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1200 } else { 240 });
    let verbose = a.iter().any(|x| x == "-v");
    let kn = known(&prop);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let total = Mutex::new(Stats::default());
    let panics: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let known_hits = AtomicU64::new(0);
    let samples: Mutex<Vec<(u64, serde_json::Value)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= runs || i > stop_at.load(Ordering::SeqCst) || t0.elapsed().as_secs() >= secs {
                            break;
                        }
                        let seed = seed_of(vseed, &prop, i);
                        let (o, cfg) = run_seed(&prop, seed, &mut st);
                        if i < 4 {
                            let names: Vec<String> = o.steps.iter().take(30).map(step_name).collect();
                            samples.lock().unwrap().push((i, json!({"seed": seed, "markets": cfg.markets.len(), "users": cfg.users, "nodes": cfg.nodes, "steps": o.steps.len(), "schedule": names})));
                        }
                        if let Some(v) = o.viol {
                            if v.kind == "harness-panic" {
                                panics.lock().unwrap().push((seed, v.msg));
                                continue;
                            }
                            if kn.iter().any(|k| k.kind == v.kind && v.msg.contains(&k.contains)) {
                                known_hits.fetch_add(1, Ordering::SeqCst);
                                continue;
                            }
                            stop_at.fetch_min(i, Ordering::SeqCst);
                            found.lock().unwrap().push(Found { idx: i, seed, viol: v, cfg, steps: o.steps });
                        }
                    }
                    total.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    let st = total.into_inner().unwrap();
    let panics = panics.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.idx);
    for k in &kn {
        say!("KNOWN-FINDING: property={} {}", prop, k.text);
    }
    if !panics.is_empty() {
        eprintln!("{} runs ended by a panic in the harness, first seed {}: {}", panics.len(), panics[0].0, panics[0].1);
    }
    let mut viols = 0;
    if let Some(f) = found.first() {
        viols = 1;
        let n0 = f.steps.len();
        let budget = Duration::from_secs(arg(a, "--min-secs").and_then(|s| s.parse().ok()).unwrap_or(60));
        let steps = minimise(&prop, &f.cfg, f.steps.clone(), &f.viol.kind, budget);
        let v = replay_list(&prop, &f.cfg, &steps).unwrap_or(f.viol.clone());
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", prop, f.seed));
        let r = Replay { property: prop.clone(), seed: f.seed, kind: v.kind.clone(), violation: v.msg.clone(), cfg: f.cfg.clone(), steps: steps.clone() };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        say!("{}: {}", v.kind, v.msg);
        say!("seed {} (run {}), {} steps, minimised to {}", f.seed, f.idx, n0, steps.len());
        if verbose {
            for s in &steps {
                say!("  {:?}", s);
            }
        }
        say!("VIOLATION property={} replay={}", prop, path.display());
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(&prop, &tier, vseed, &st, wall, viols, panics.len() as u64, known_hits.load(Ordering::SeqCst), samples.into_inner().unwrap());
    say!(
        "{} {}: {} runs, {} steps, {} transactions ({} accepted), {} judged cases ({} distinct), {} abstract states, {:.1} simulated days, {:.1} s",
        prop,
        tier,
        st.runs,
        st.steps,
        st.txs,
        st.ok.values().sum::<u64>(),
        st.evals,
        st.distinct.len(),
        st.states.len(),
        st.sim_ms as f64 / 86_400_000.0,
        wall
    );
    if verbose {
        say!("cases {:#?}", st.cases);
        say!("ok {:?}\nfail {:?}\nfaults {:?}\nsetup errors {}", st.ok, st.fail, st.faults, st.setup_errors);
        let mut m: Vec<_> = st.msgs.iter().collect();
        m.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in m.iter().take(60) {
            say!("  {:6} {}", v, k);
        }
    }
    viols
}

fn step_name(s: &types::Step) -> String {
    match s {
        types::Step::Tx { from, op, abort } => {
            format!("{}:{}{}", from, op_name(op), if abort.is_some() { "!abort" } else { "" })
        }
        types::Step::Adv(d) => format!("+{}s", d),
        types::Step::AdvMs(d) => format!("+{}ms", d),
        _ => {
            let x = format!("{:?}", s);
            x.split(' ').next().unwrap_or("").to_string()
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    st: &Stats,
    wall: f64,
    viols: i32,
    panics: u64,
    known: u64,
    mut samples: Vec<(u64, serde_json::Value)>,
) {
    samples.sort_by_key(|s| s.0);
    let per_hour = |n: u64| (n as f64 / wall.max(0.001) * 3600.0).round() as u64;
    let mut faults = st.faults.clone();
    let aborted = faults.get("transaction aborted part-way").cloned().unwrap_or(0);
    faults.retain(|_, v| *v > 0);
    let v = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.distinct.len(),
            "rule": "one evaluation = the oracle judged one transaction, probe or end state in which the property's antecedent held; two evaluations are distinct when the key the oracle gives the case differs (operation, market, outcome, and the property's own buckets such as position counts, utilisation or health band)",
            "samples": samples.into_iter().map(|s| s.1).collect::<Vec<_>>(),
            "cases": st.cases,
            "runs": st.runs,
            "steps": st.steps,
            "transactions": st.txs,
            "accepted": st.ok,
            "refused": st.fail,
            "runs_per_hour": per_hour(st.runs),
            "seeds_per_hour": per_hour(st.runs),
            "transactions_per_hour": per_hour(st.txs),
            "simulated_seconds": st.sim_ms / 1000,
            "simulated_years": st.sim_ms as f64 / 31_556_926_000.0,
            "faults_injected": faults,
            "aborted_transactions": aborted,
            "distinct_abstract_states": st.states.len(),
            "state_measure": "pause flags, per market utilisation in tenths and whether it owes the treasury, multiset over accounts of (deposits, debts, category, isolated)",
            "distinct_interleavings": st.inter.len(),
            "interleaving_measure": "distinct windows of four consecutive transactions (operation, outcome, sender)",
            "setup_errors": st.setup_errors,
            "runs_ended_by_harness_panic": panics,
            "runs_ended_by_known_finding": known,
            "real_components": ["controller contract (/repo/controller)", "liquidity pool contract (/repo/liquidity_layer)", "price aggregator contract (/repo/price_aggregator)", "shared maths, rates, storage codecs (/repo/common)", "contract API and VM (multiversx-chain-vm debug executor)"],
            "stubbed_components": ["block producer, clock and mempool (simulator)", "xExchange pair and safe-price view", "Onedex pair", "liquid-staking and LXOXNO rate contracts", "swap router", "flash-loan receiver", "revenue accumulator"]
        },
        "assumptions": [
            "the debug VM executes the contracts' Rust code natively; WASM compilation and gas metering are not simulated",
            "failed transactions roll back atomically, as the chain guarantees",
            "asynchronous upgrades complete in the same block"
        ],
        "wall_s": wall,
        "violations": viols
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&v).unwrap());
}
