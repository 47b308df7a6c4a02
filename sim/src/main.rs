//! Driver: seeded search over simulated runs, one property at a time.
mod cluster;
mod decode;
mod gen;
mod jsread;
mod known;
mod model;
mod ops;
mod oracle;
mod readers;
mod rng;
mod rt;
mod shrink;
mod wire;
mod world;

use ops::*;
use serde_json::{json, Value};
use shrink::Out;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// Workers from this one on run the build without overflow checks ...
const FIRST_WRAP: u64 = 4;
/// ... and from this one on the program's on-chain lines (if they compile).
const FIRST_CHAIN: u64 = 6;

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("AOSIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}
fn exe(profile: &str) -> PathBuf {
    let me = std::env::current_exe().expect("own path");
    let root = me.parent().and_then(|p| p.parent()).expect("target dir");
    root.join(profile).join("aosim")
}
fn own_profile() -> String {
    let me = std::env::current_exe().expect("own path");
    me.parent()
        .and_then(|p| p.file_name())
        .map(|x| x.to_string_lossy().into_owned())
        .unwrap_or_default()
}
fn profile_of(worker: u64) -> &'static str {
    if worker >= FIRST_CHAIN && exe("chain").exists() {
        "chain"
    } else if worker >= FIRST_WRAP {
        "wrap"
    } else {
        "release"
    }
}

/// Runs of the quick tier, per property.
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C19" => 12_000,
        "C25" => 50_000,
        "C30" => 1_500,
        "C31" => 24_000,
        "C17" | "C22" | "C23" => 50_000,
        "C26" => 10_000,
        _ => 90_000,
    }
}

fn limits() {
    unsafe {
        let mut l = libc::rlimit {
            rlim_cur: 0,
            rlim_max: libc::RLIM_INFINITY,
        };
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        l.rlim_cur = (3u64 << 30).min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

struct RunOut {
    viol: Option<(Scenario, String)>,
    act: BTreeMap<&'static str, u64>,
    stats: BTreeMap<&'static str, u64>,
    states: Vec<u64>,
    digest: u64,
    nontrivial: bool,
    steps: u64,
    sim_ms: u64,
    others: BTreeMap<String, u64>,
}

fn one_run(
    prop: &str,
    seed: u64,
    idx: u64,
    deep: bool,
    live: Option<&str>,
    remote: Option<&mut cluster::Remote>,
) -> RunOut {
    let mut g = gen::Gen::new(prop, seed, idx, deep);
    if let Some(p) = live {
        g.dump_live(p);
    }
    if prop == "C26" {
        g.w.snaps = Some(vec![]);
        g.w.snap_mask = if deep { 7 } else { 15 };
    }
    g.run();
    gen::read_snaps(&mut g.w);
    let mut stats = g.w.stats.c.clone();
    let mut act = g.w.act.clone();
    let mut others = BTreeMap::new();
    for v in &g.w.viols {
        if v.prop != prop {
            *others.entry(v.prop.to_string()).or_insert(0) += 1;
        }
    }
    let mut scn = Scenario {
        property: prop.to_string(),
        seed,
        index: idx,
        cfg: g.w.cfg.clone(),
        steps: vec![],
        cluster: vec![],
        profile: own_profile(),
        prelude: vec![],
        deep,
        violation: String::new(),
    };
    let (mut digest, mut states) = (g.w.digest.0, g.w.states.iter().copied().collect::<Vec<_>>());
    let mut steps = g.steps.len() as u64;
    let mut sim_ms = g.w.now;
    let mut viol = None;
    if prop == "C19" {
        let (st, evs) = gen::cluster_of(&g, seed, idx);
        let c = cluster::run(&g.w.cfg, &st, &evs, false, remote);
        steps += evs.len() as u64;
        sim_ms = 400 * evs.iter().filter(|e| matches!(e, CEv::Block { .. })).count() as u64;
        act.insert("C19", c.compared);
        for (k, v) in &c.stats {
            *stats.entry(k).or_insert(0) += v;
        }
        digest = c.digest.0;
        states = c.states.iter().copied().collect();
        if let Some(m) = c.viol {
            if known::matches(prop, &m) {
                *stats.entry("known findings met").or_insert(0) += 1;
            } else {
                scn.steps = st;
                scn.cluster = evs;
                scn.violation = m.clone();
                viol = Some((scn, m));
            }
        }
    } else if let Some(v) = g.w.viols.iter().find(|v| v.prop == prop) {
        scn.steps = std::mem::take(&mut g.steps);
        scn.violation = v.msg.clone();
        viol = Some((scn, v.msg.clone()));
    }
    RunOut {
        nontrivial: act.get(prop).copied().unwrap_or(0) > 0,
        viol,
        act,
        stats,
        states,
        digest,
        steps,
        sim_ms,
        others,
    }
}

fn worker(a: &[String]) {
    limits();
    let prop = &a[0];
    let deep = a[1] == "thorough";
    let seed: u64 = a[2].parse().expect("seed");
    let k: u64 = a[3].parse().expect("worker");
    let n: u64 = a[4].parse().expect("runs");
    let secs: f64 = a[5].parse().expect("secs");
    let first: u64 = a[6].parse().expect("first");
    let dir = Path::new(&a[7]);
    let prog = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(dir.join(format!("prog{}", k)))
        .expect("progress file");
    // before anything of the program runs in this process
    let mut remote = if prop == "C19" {
        cluster::Remote::start()
    } else {
        None
    };
    let start = Instant::now();
    let mut act: BTreeMap<String, u64> = BTreeMap::new();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut steps, mut sim) = (0u64, 0u64, 0u64);
    let mut states: HashSet<u64> = HashSet::new();
    let mut digests: Vec<u64> = vec![];
    let mut idx = first;
    let mut found = None;
    let mut slow = 0f64;
    while idx < n {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(idx + 1).to_le_bytes());
        let _ = prog.write_all_at(&b, 0);
        if start.elapsed().as_secs_f64() > secs {
            break;
        }
        let t = Instant::now();
        let r = one_run(prop, seed, idx, deep, None, remote.as_mut());
        slow = slow.max(t.elapsed().as_secs_f64());
        runs += 1;
        steps += r.steps;
        sim += r.sim_ms;
        for (x, v) in r.act {
            *act.entry(x.into()).or_insert(0) += v;
        }
        for (x, v) in r.stats {
            *stats.entry(x.into()).or_insert(0) += v;
        }
        for (x, v) in r.others {
            *others.entry(x).or_insert(0) += v;
        }
        if r.nontrivial {
            digests.push(r.digest);
        }
        for s in r.states {
            if states.len() < 1_500_000 {
                states.insert(s);
            }
        }
        if let Some((s, _)) = r.viol {
            let _ = std::fs::write(
                dir.join(format!("viol{}.json", k)),
                serde_json::to_vec(&s).expect("json"),
            );
            found = Some(idx);
            break;
        }
        idx += WORKERS;
    }
    let bytes = |v: &mut dyn Iterator<Item = u64>| {
        let mut o = vec![];
        for x in v {
            o.extend_from_slice(&x.to_le_bytes());
        }
        o
    };
    let _ = std::fs::write(
        dir.join(format!("states{}", k)),
        bytes(&mut states.iter().copied()),
    );
    let _ = std::fs::write(
        dir.join(format!("digests{}", k)),
        bytes(&mut digests.iter().copied()),
    );
    let out = json!({"runs": runs, "steps": steps, "sim_ms": sim, "act": act, "stats": stats,
        "others": others, "found": found, "slowest_s": slow, "ambient": rt::ambient_reads(),
        "next": idx});
    let _ = std::fs::write(dir.join(format!("out{}.part", k)), out.to_string());
    let _ = std::fs::rename(
        dir.join(format!("out{}.part", k)),
        dir.join(format!("out{}.json", k)),
    );
}

struct W {
    k: u64,
    child: Option<std::process::Child>,
    last: u64,
    since: Instant,
}

fn spawn(prop: &str, tier: &str, seed: u64, k: u64, n: u64, secs: f64, first: u64, dir: &Path) -> std::process::Child {
    std::process::Command::new(exe(profile_of(k)))
        .args([
            "worker",
            prop,
            tier,
            &seed.to_string(),
            &k.to_string(),
            &n.to_string(),
            &secs.to_string(),
            &first.to_string(),
            &dir.to_string_lossy(),
        ])
        .stdin(std::process::Stdio::null())
        .spawn()
        .expect("worker process")
}

fn read_u64s(p: &Path) -> Vec<u64> {
    std::fs::read(p)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| {
            let mut a = [0; 8];
            a.copy_from_slice(c);
            u64::from_le_bytes(a)
        })
        .collect()
}

/// Violations that a run which dies or never ends amounts to, by the step it was lost in.
fn lost_counts(prop: &str, last: Option<&Step>) -> bool {
    if prop == "C27" {
        return true;
    }
    let op = match last.map(|s| &s.act) {
        Some(Act::Tx { ops, .. }) => ops.last(),
        Some(Act::Adv { op, .. }) => Some(op),
        Some(Act::Raw { .. }) => return prop == "C29",
        Some(Act::TsCreate { .. }) => return prop == "C31",
        Some(Act::Grow { .. }) => return prop == "C27" || prop == "C30",
        Some(Act::Read { .. }) => return prop == "C23",
        Some(Act::FillProbe { .. }) => return prop == "C17",
        Some(Act::DrainProbe { .. }) => return prop == "C22",
        _ => None,
    };
    match op {
        Some(Op::Consume { .. }) => ["C20", "C22"].contains(&prop),
        Some(Op::Cancel { .. }) | Some(Op::Mass { .. }) => ["C13", "C22"].contains(&prop),
        Some(Op::Close { .. }) => ["C16", "C22"].contains(&prop),
        Some(Op::Create { .. }) => prop == "C15",
        _ => false,
    }
}

fn check(prop: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let env_n = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<f64>().ok());
    let deep = tier == "thorough";
    let n = env_n("AOSIM_RUNS")
        .map(|x| x as u64)
        .unwrap_or(if deep { u64::MAX / 2 } else { quick_runs(prop) });
    let secs = env_n("AOSIM_SECS").unwrap_or(if deep { 420.0 } else { 60.0 });
    let root = verif();
    let dir = root.join("work").join(format!("{}-{}", prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("work directory");
    let start = Instant::now();
    let mut ws: Vec<W> = (0..WORKERS)
        .map(|k| W {
            k,
            child: Some(spawn(prop, tier, seed, k, n, secs, k, &dir)),
            last: 0,
            since: Instant::now(),
        })
        .collect();
    let mut parts: Vec<Value> = vec![];
    let mut lost: Vec<(u64, u64, String)> = vec![]; // worker, index, why
    let mut min_found: Option<u64> = None;
    let hang_s = if deep { 60.0 } else { 25.0 };
    let mut harness_error = None;
    while ws.iter().any(|w| w.child.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut() {
            let Some(c) = w.child.as_mut() else { continue };
            let cur = read_u64s(&dir.join(format!("prog{}", w.k)))
                .first()
                .copied()
                .unwrap_or(0);
            if cur != w.last {
                w.last = cur;
                w.since = Instant::now();
            }
            let mut gone = None;
            match c.try_wait() {
                Ok(Some(st)) => {
                    let o = dir.join(format!("out{}.json", w.k));
                    if st.success() && o.exists() {
                        let v: Value =
                            serde_json::from_slice(&std::fs::read(&o).unwrap_or_default())
                                .unwrap_or(Value::Null);
                        if let Some(i) = v["found"].as_u64() {
                            min_found = Some(min_found.map_or(i, |m| m.min(i)));
                        }
                        parts.push(v);
                        w.child = None;
                        continue;
                    }
                    gone = Some(format!("process ended: {}", st));
                }
                Ok(None) => {
                    if let (Some(m), true) = (min_found, cur > 0) {
                        if cur - 1 > m {
                            let _ = c.kill();
                            let _ = c.wait();
                            w.child = None;
                            continue;
                        }
                    }
                    if w.since.elapsed().as_secs_f64() > hang_s {
                        let _ = c.kill();
                        let _ = c.wait();
                        gone = Some("did not come back".to_string());
                    }
                }
                Err(e) => gone = Some(e.to_string()),
            }
            if let Some(why) = gone {
                w.child = None;
                if cur == 0 {
                    harness_error = Some(format!("worker {} failed at start: {}", w.k, why));
                    continue;
                }
                lost.push((w.k, cur - 1, why));
                // carry on behind the lost run, a few times
                let tries = lost.iter().filter(|l| l.0 == w.k).count();
                let left = secs - start.elapsed().as_secs_f64();
                if tries <= 2 && left > 1.0 && min_found.is_none() {
                    let nk = cur - 1 + WORKERS;
                    w.child = Some(spawn(prop, tier, seed, w.k, n, left, nk, &dir));
                    w.since = Instant::now();
                }
            }
        }
    }
    let search_s = start.elapsed().as_secs_f64();
    // ---- the violation, if any: confirm in a fresh process, make small, record, replay
    let mut verdict: Option<(Scenario, bool)> = None;
    let mut notes: Vec<String> = vec![];
    if let Some(m) = min_found {
        let k = m % WORKERS;
        let p = dir.join(format!("viol{}.json", k));
        match serde_json::from_slice::<Scenario>(&std::fs::read(&p).unwrap_or_default()) {
            Ok(s) => {
                let limit = Duration::from_secs(60);
                let mut got = None;
                let step = WORKERS;
                let before: Vec<u64> = (0..).map(|i| k + i * step).take_while(|i| *i < m).collect();
                for take in [0usize, 1, 8, 64, usize::MAX] {
                    let mut t = s.clone();
                    t.prelude = before[before.len().saturating_sub(take)..].to_vec();
                    if confirm(&t, &dir, limit) {
                        got = Some(t);
                        break;
                    }
                    if take >= before.len() {
                        break;
                    }
                }
                match got {
                    Some(t) => verdict = Some((t, false)),
                    None => {
                        harness_error = Some(format!(
                            "run {} reported '{}' but does not repeat",
                            m, s.violation
                        ))
                    }
                }
            }
            Err(e) => harness_error = Some(format!("unreadable violation: {}", e)),
        }
    }
    if verdict.is_none() {
        for (k, idx, why) in &lost {
            // find the step it is lost in
            let live = dir.join(format!("live{}", idx));
            let mut c = std::process::Command::new(exe(profile_of(*k)))
                .args([
                    "lost",
                    prop,
                    tier,
                    &seed.to_string(),
                    &idx.to_string(),
                    &live.to_string_lossy(),
                ])
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("process");
            let t = Instant::now();
            let mut done = None;
            while t.elapsed().as_secs_f64() < 20.0 {
                if let Ok(Some(st)) = c.try_wait() {
                    done = Some(st.success());
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            let _ = c.kill();
            let _ = c.wait();
            if done == Some(true) {
                harness_error = Some(format!("run {} was lost once ({}), not again", idx, why));
                continue;
            }
            let text = std::fs::read_to_string(&live).unwrap_or_default();
            let mut ls = text.lines();
            let cfg = ls.next().and_then(|l| serde_json::from_str::<Cfg>(l).ok());
            let steps: Vec<Step> = ls.filter_map(|l| serde_json::from_str(l).ok()).collect();
            let Some(cfg) = cfg else { continue };
            if lost_counts(prop, steps.last()) {
                let s = Scenario {
                    property: prop.to_string(),
                    seed,
                    index: *idx,
                    cfg,
                    steps,
                    cluster: vec![],
                    profile: profile_of(*k).to_string(),
                    prelude: vec![],
                    deep,
                    violation: format!("an operation never came back ({})", why),
                };
                verdict = Some((s, true));
                break;
            }
            notes.push(format!(
                "run {} ended inside an operation ({}); see C27",
                idx, why
            ));
        }
    }
    let mut code = 0;
    let mut replay_path = None;
    if let Some((s, was_lost)) = &verdict {
        let small = minimise_in(s, *was_lost, &dir, if deep { 60 } else { 20 });
        let rdir = root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}-run{}.json", prop, s.seed, s.index));
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&small).expect("json"));
        println!(
            "{}: run {} of seed {} ({} build), {} steps ({} before minimising): {}",
            prop,
            small.index,
            small.seed,
            small.profile,
            small.steps.len() + small.cluster.len(),
            s.steps.len() + s.cluster.len(),
            small.violation
        );
        let ok = confirm(&small, &dir, Duration::from_secs(60));
        if !ok && !*was_lost {
            harness_error = Some("the replay file does not reproduce".into());
        } else {
            println!("VIOLATION property={} replay={}", prop, path.display());
            replay_path = Some(path);
            code = 1;
        }
    }
    for k in known::of(prop) {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    if code == 0 {
        if let Some(e) = &harness_error {
            println!("{}: inconclusive: {}", prop, e);
            code = 2;
        } else if !notes.is_empty() {
            for x in &notes {
                println!("{}: inconclusive: {}", prop, x);
            }
            code = 2;
        }
    }
    let ev = evidence(
        prop, tier, seed, n, &parts, &dir, start, search_s, &verdict, replay_path, &notes,
    );
    let edir = root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let _ = std::fs::write(
        edir.join(format!("{}.json", prop)),
        serde_json::to_vec_pretty(&ev).expect("json"),
    );
    let c = &ev["coverage"];
    if code == 0 {
        println!(
            "{}: held over {} simulated runs ({} distinct non-trivial, {} oracle evaluations, {} distinct states) in {:.1} s",
            prop, c["evaluations"], c["distinct_nontrivial"], c["oracle_evaluations"],
            c["distinct_states"], search_s
        );
        if c["distinct_nontrivial"].as_u64() == Some(0) {
            println!("{}: nothing was explored", prop);
            code = 2;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Does the scenario show its violation in a fresh process of the right build?
fn confirm(s: &Scenario, dir: &Path, limit: Duration) -> bool {
    let f = dir.join("confirm.json");
    let _ = std::fs::write(&f, serde_json::to_vec(s).expect("json"));
    let c = std::process::Command::new(exe(&s.profile))
        .args(["replay", &f.to_string_lossy(), "--quiet"])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .spawn();
    let Ok(mut c) = c else { return false };
    let t = Instant::now();
    while t.elapsed() < limit {
        if let Ok(Some(st)) = c.try_wait() {
            return st.code() == Some(1);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let _ = c.kill();
    let _ = c.wait();
    false
}

fn minimise_in(s: &Scenario, lost: bool, dir: &Path, secs: u64) -> Scenario {
    let f = dir.join("min-in.json");
    let g = dir.join("min-out.json");
    let _ = std::fs::write(&f, serde_json::to_vec(s).expect("json"));
    let _ = std::process::Command::new(exe(&s.profile))
        .args([
            "minimise",
            &f.to_string_lossy(),
            &g.to_string_lossy(),
            &secs.to_string(),
            if lost { "lost" } else { "found" },
        ])
        .stdin(std::process::Stdio::null())
        .status();
    std::fs::read(&g)
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or_else(|| s.clone())
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "a run is non-trivial if at least one order produced fills or out events",
        "C02" => "a run is non-trivial if at least one order traded or was posted",
        "C03" => "a run is non-trivial if at least one fill, or one stop of matching with orders opposite, was judged",
        "C05" => "a run is non-trivial if both sides of a book were occupied after some operation",
        "C14" => "a run is non-trivial if at least one instruction with substituted accounts was sent that would succeed on the genuine ones",
        "C15" => "a run is non-trivial if at least one market creation was judged",
        "C16" => "a run is non-trivial if at least one close, or one use of a closed market, was judged",
        "C19" => "a run is non-trivial if at least one block was executed by two replicas (or twice) and compared",
        "C21" => "a run is non-trivial if an order met a full queue, filled it exactly, or was refused by it",
        "C31" => "a run is non-trivial if the TypeScript client made at least one market",
        "C30" => "a run is non-trivial if one instruction touched at least eight orders or events",
        "C29" => "a run is non-trivial if damaged or altered bytes, or a short account list, were sent for at least one instruction that would succeed intact",
        "C26" => "a run is non-trivial if the TypeScript client read at least one snapshot with orders or events",
        "C23" => "a run is non-trivial if readers were used on a market with orders or events",
        _ => "a run is non-trivial if this property's oracle judged at least one operation with something at stake (see DESIGN.md)",
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    n: u64,
    parts: &[Value],
    dir: &Path,
    start: Instant,
    search_s: f64,
    verdict: &Option<(Scenario, bool)>,
    replay: Option<PathBuf>,
    notes: &[String],
) -> Value {
    let sum = |k: &str| parts.iter().filter_map(|p| p[k].as_u64()).sum::<u64>();
    let map = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for p in parts {
            if let Some(o) = p[k].as_object() {
                for (a, b) in o {
                    *m.entry(a.clone()).or_insert(0) += b.as_u64().unwrap_or(0);
                }
            }
        }
        m
    };
    let mut digests: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    for k in 0..WORKERS {
        digests.extend(read_u64s(&dir.join(format!("digests{}", k))));
        states.extend(read_u64s(&dir.join(format!("states{}", k))));
    }
    let runs = sum("runs");
    let stats = map("stats");
    let act = map("act");
    let faults: BTreeMap<String, u64> = stats
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault:").map(|x| (x.to_string(), *v)))
        .collect();
    let probes: BTreeMap<String, u64> = stats
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("probe: ").map(|x| (x.to_string(), *v)))
        .collect();
    let rest: BTreeMap<String, u64> = stats
        .iter()
        .filter(|(k, _)| !k.starts_with("fault:") && !k.starts_with("probe: "))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let sim_ms = sum("sim_ms");
    let samples = samples(prop, tier, seed);
    let per_h = if search_s > 0.0 {
        (runs as f64 / search_s * 3600.0) as u64
    } else {
        0
    };
    json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if replay.is_some() { 1 } else { 0 },
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": digests.len(),
            "rule": format!("One case is one simulated run: run i of seed s draws configuration, actors, network behaviour and faults from a generator seeded with (s, i, property) and is repeatable from that alone. Runs count as distinct by a hash over the sequence of committed market states and outcomes; {}.", rule(prop)),
            "samples": samples,
            "oracle_evaluations": act.get(prop).copied().unwrap_or(0),
            "distinct_states": states.len(),
            "distinct_states_measure": "hash over both books (identifiers, quantities, callback bytes), waiting events and sequence number after a committed operation; for C19 hash over all account bytes after a block",
            "runs_planned": if n > u64::MAX / 4 { Value::Null } else { json!(n) },
            "runs_per_hour": per_h,
            "seeds_per_hour": per_h,
            "steps": sum("steps"),
            "simulated_time_s": sim_ms as f64 / 1000.0,
            "faults_injected": faults,
            "situations_reached": probes,
            "counters": rest,
            "workers": {
                "overflow-checked build": FIRST_WRAP,
                "build without overflow checks": (FIRST_WRAP..WORKERS).filter(|k| profile_of(*k) == "wrap").count(),
                "build without overflow checks, on-chain (target_os = solana) lines": (FIRST_WRAP..WORKERS).filter(|k| profile_of(*k) == "chain").count()
            },
            "program_reads_of_clock_or_randomness": sum("ambient"),
            "components": {
                "real code": ["the whole agnostic-orderbook library: processors, order book, critbit slabs, event queue, market state, account checks", "its entry point and published instruction builders (the Entry runs)", "its published readers and helpers", "borsh, bytemuck and solana-program types"],
                "simulated": ["ledger and transactions (all-or-nothing, ownership and read-only rules, lamports)", "traders, consumers, adversary, network, crashes", "system calls: log, rent, clock; C library clock and randomness", "the caller program and its settlement (C24)"]
            },
            "runs_cut_short_by_another_property": map("others"),
            "slowest_run_s": parts.iter().filter_map(|p| p["slowest_s"].as_f64()).fold(0.0, f64::max),
            "violation": verdict.as_ref().map(|v| v.0.violation.clone()),
            "replay": replay.map(|p| p.display().to_string()),
            "notes": notes,
        },
        "assumptions": [
            "machine code for the host behaves like that for the chain (the program's own target_os = solana lines are compiled and run by some of the workers)",
            "transactions are atomic and executed one after another, as the Solana runtime guarantees for accounts they share"
        ],
    })
}

/// Actual cases of this run, written out.
fn samples(prop: &str, tier: &str, seed: u64) -> Vec<Value> {
    let mut out = vec![];
    for idx in 0..6u64 {
        if out.len() == 2 {
            break;
        }
        let (p, deep) = (prop.to_string(), tier == "thorough");
        let r = shrink::in_child(Duration::from_secs(20), |w| {
            use std::io::Write;
            let mut g = gen::Gen::new(&p, seed, idx, deep);
            g.w.log = Some(vec![]);
            g.run();
            let lines: Vec<String> = g
                .w
                .log
                .clone()
                .unwrap_or_default()
                .into_iter()
                .filter(|l| l.starts_with("  "))
                .take(14)
                .map(|l| l.trim().chars().take(260).collect())
                .collect();
            let mut v = json!({"run": idx, "mode": format!("{:?}", g.w.cfg.mode), "callback": format!("{:?}", g.w.cfg.cb), "steps": g.steps.len(), "first_operations": lines});
            if p == "C19" {
                let (_, evs) = gen::cluster_of(&g, seed, idx);
                let e: Vec<String> = evs.iter().take(16).map(|e| format!("{:?}", e)).collect();
                v["first_cluster_events"] = json!(e);
                v["cluster_events"] = json!(evs.len());
            }
            let _ = w.write_all(v.to_string().as_bytes());
        });
        if let Ok(b) = r {
            if let Ok(v) = serde_json::from_slice(&b) {
                out.push(v);
            }
        }
    }
    out
}

fn replay(path: &str, quiet: bool) -> i32 {
    let s: Scenario = match std::fs::read(path)
        .map_err(|e| e.to_string())
        .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
    {
        Ok(s) => s,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    if !s.profile.is_empty() && s.profile != own_profile() && exe(&s.profile).exists() {
        let st = std::process::Command::new(exe(&s.profile))
            .args(std::env::args().skip(1))
            .status();
        return st.ok().and_then(|x| x.code()).unwrap_or(1);
    }
    limits();
    if !quiet {
        for st in &s.steps {
            println!("{}", serde_json::to_string(st).unwrap_or_default());
        }
        println!("--");
    }
    let (o, log, digest) = shrink::execute(&s, !quiet);
    for l in log {
        println!("{}", l);
    }
    match o {
        Out::Viol(m) => {
            println!("REPRODUCED property={} digest={:016x}: {}", s.property, digest, m);
            1
        }
        _ => {
            println!("NOT REPRODUCED property={} digest={:016x}", s.property, digest);
            0
        }
    }
}

fn main() {
    rt::install();
    known::load(&verif().join("KNOWN_FINDINGS.txt").to_string_lossy());
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => {
            worker(&a[2..]);
            0
        }
        Some("lost") => {
            limits();
            one_run(
                &a[2],
                a[4].parse().expect("seed"),
                a[5].parse().expect("index"),
                a[3] == "thorough",
                Some(&a[6]),
                None,
            );
            0
        }
        Some("minimise") => {
            let s: Scenario =
                serde_json::from_slice(&std::fs::read(&a[2]).expect("file")).expect("scenario");
            let secs: u64 = a[4].parse().expect("secs");
            let (m, _) = shrink::minimise(&s, a[5] == "lost", Duration::from_secs(secs));
            std::fs::write(&a[3], serde_json::to_vec(&m).expect("json")).expect("write");
            0
        }
        Some("replay") => replay(&a[2], a.get(3).map(|s| s == "--quiet") == Some(true)),
        // digests of runs, for comparing executions of the same seed between processes
        Some("digest") => {
            let (from, to): (u64, u64) = (a[4].parse().expect("from"), a[5].parse().expect("to"));
            let seed: u64 = a[3].parse().expect("seed");
            for i in from..to {
                let r = one_run(&a[2], seed, i, false, None, None);
                println!("{} {:016x} {}", i, r.digest, r.steps);
            }
            0
        }
        // violation counts over runs, for work on the oracles
        Some("survey") => {
            let (from, to): (u64, u64) = (a[4].parse().expect("from"), a[5].parse().expect("to"));
            let seed: u64 = a[3].parse().expect("seed");
            let mut all: BTreeMap<String, (u64, String)> = BTreeMap::new();
            for i in from..to {
                let mut g = gen::Gen::new(&a[2], seed, i, a.get(6).is_some());
                g.run();
                for v in &g.w.viols {
                    let k = format!("{}: {}", v.prop, v.msg.chars().take(50).collect::<String>());
                    all.entry(k)
                        .or_insert((0, format!("run {} step {}: {}", i, g.steps.len(), v.msg)))
                        .0 += 1;
                }
            }
            for (k, v) in all {
                println!("{} x{} :: {}", k, v.0, v.1);
            }
            0
        }
        _ => {
            println!("usage: aosim check PROPERTY | replay FILE | digest PROPERTY SEED FROM TO");
            2
        }
    };
    std::process::exit(code);
}
