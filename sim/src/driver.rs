//! Orchestration: worker processes, watchdog, minimisation, replay, evidence.
use crate::core::*;
use crate::registry::{property, scenario, PROPERTIES};
use crate::rng::{hash_str, mix};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const HANG_SECS: u64 = 60;
const NONDET: &str = "not-repeatable";

pub fn main(a: &[String]) -> i32 {
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match s.as_slice() {
        ["check", id] => check(id),
        ["worker", id, tier, seed, start, stride, until] =>
            worker(id, tier_of(tier), num(seed), num(start), num(stride), num(until)),
        ["minimise", file, out, class] => minimise(file, out, class),
        ["replay", file] => replay(file, false),
        ["replay", "-v", file] => replay(file, true),
        ["try", id, n] => quick_try(id, num(n)),
        ["trace", id, idx] => trace(id, num(idx)),
        ["list"] => { for p in PROPERTIES { println!("{} {}", p.id, p.parts.iter().map(|s| s.id()).collect::<Vec<_>>().join(" ")); } 0 }
        _ => { eprintln!("usage: dst check ID | replay [-v] FILE | try ID N | trace SCENARIO IDX | list"); 2 }
    }
}

fn num(s: &str) -> u64 { s.parse().expect("number") }
fn tier_of(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }
fn tier_name(t: Tier) -> &'static str { if t == Tier::Quick { "quick" } else { "thorough" } }
fn master_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())) }

// ------------------------------------------------------------------ worker

/// Runs every `stride`-th run index of a scenario; one line per event on stdout.
fn worker(id: &str, tier: Tier, seed: u64, start: u64, stride: u64, until: u64) -> i32 {
    let sc = scenario(id).expect("scenario");
    let mut out = std::io::stdout(); // not locked: the library may print
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut logs: HashSet<u64> = HashSet::new();
    let mut steps = 0u64;
    let mut done = 0u64;
    let mut idx = start;
    let mut twice = 0u64;
    while idx < until {
        let _ = write!(out, "@R {}\n", idx); let _ = out.flush();
        let (o, again) = one(sc, seed, idx, tier);
        done += 1;
        steps += o.ctx.stats.steps;
        for (k, v) in &o.ctx.stats.counts { *counts.entry(k).or_insert(0) += v; }
        if states.len() < 3_000_000 { states.extend(o.ctx.states.iter()); }
        if o.ctx.stats.nontrivial { logs.insert(o.ctx.hash); }
        if let Some(v) = &o.violation {
            let _ = write!(out, "@V {} {}\t{}\n", idx, v.class.replace('\n', " "), v.msg.replace('\n', " ").chars().take(500).collect::<String>());
            let _ = out.flush();
        } else if let Some(h) = again {
            twice += 1;
            if h != o.ctx.hash { let _ = write!(out, "@N {}\n", idx); let _ = out.flush(); }
        }
        idx += stride;
    }
    let mut s = String::new();
    for (k, v) in &counts { let _ = writeln!(s, "@C {} {}", v, k); }
    let _ = writeln!(s, "@T {} {} {}", done, steps, twice);
    for h in &logs { let _ = writeln!(s, "@L {:x}", h); }
    for h in &states { let _ = writeln!(s, "@S {:x}", h); }
    let _ = out.write_all(s.as_bytes());
    let _ = writeln!(out, "@E");
    let _ = out.flush();
    0
}

/// One run; a sample of those that held is run again: same plan, same event log.
fn one(sc: &'static dyn Scenario, seed: u64, idx: u64, tier: Tier) -> (Outcome, Option<u64>) {
    let plan = plan_for(sc, seed, idx, tier);
    let o = execute(sc, &plan, false);
    let again = if o.violation.is_none() && mix(seed, idx) % 50 == 0 { Some(execute(sc, &plan, false).ctx.hash) } else { None };
    (o, again)
}

#[derive(Default)]
struct Batch {
    counts: BTreeMap<String, u64>,
    states: HashSet<u64>,
    logs: HashSet<u64>,
    runs: u64, steps: u64, twice: u64,
    violations: Vec<(u64, String, String)>,
    nondet: Vec<u64>,
    wall: f64,
    capped: bool,
    error: Option<String>,
}

fn workers() -> u64 { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64 }

fn run_batch(sc: &'static dyn Scenario, tier: Tier, seed: u64, runs: u64, deadline: Instant, known: &[String]) -> Batch {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let n = workers();
    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let mut kids = vec![];
    for w in 0..n {
        let mut k = Command::new(&exe)
            .args(["worker", sc.id(), tier_name(tier), &seed.to_string(), &w.to_string(), &n.to_string(), &runs.to_string()])
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn worker");
        let so = k.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::with_capacity(1 << 16, so).lines() {
                match l { Ok(l) => { if tx.send((w as usize, Some(l))).is_err() { return; } } Err(_) => break }
            }
            let _ = tx.send((w as usize, None));
        });
        kids.push(k);
    }
    drop(tx);
    let mut b = Batch::default();
    let mut at: Vec<Option<u64>> = vec![None; n as usize];
    let mut since: Vec<Instant> = vec![Instant::now(); n as usize];
    let mut ended = vec![false; n as usize];
    let mut open = n;
    let mut partial: Vec<u64> = vec![0; n as usize];
    let mut stop_at: Option<Instant> = None;
    while open > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((w, Some(l))) => {
                since[w] = Instant::now();
                let l = match l.strip_prefix('@') { Some(l) if !l.is_empty() => l.to_string(), _ => continue };
                let (k, rest) = l.split_at(1);
                let rest = rest.trim_start();
                match k {
                    "R" => { at[w] = Some(num(rest)); partial[w] += 1; }
                    "V" => {
                        let (i, r) = rest.split_once(' ').unwrap_or((rest, ""));
                        let (c, m) = r.split_once('\t').unwrap_or((r, ""));
                        b.violations.push((num(i), c.to_string(), m.to_string()));
                        if !known.iter().any(|k| c == k || k == "*") && stop_at.is_none() { stop_at = Some(Instant::now() + Duration::from_secs(2)); }
                    }
                    "N" => b.nondet.push(num(rest)),
                    "C" => { let (v, k) = rest.split_once(' ').unwrap(); *b.counts.entry(k.to_string()).or_insert(0) += num(v); }
                    "T" => { let v: Vec<u64> = rest.split(' ').map(num).collect(); b.runs += v[0]; b.steps += v[1]; b.twice += v[2]; partial[w] = 0; }
                    "L" => { b.logs.insert(u64::from_str_radix(rest, 16).unwrap()); }
                    "S" => { b.states.insert(u64::from_str_radix(rest, 16).unwrap()); }
                    "E" => { ended[w] = true; }
                    _ => {}
                }
            }
            Ok((w, None)) => {
                open -= 1;
                let st = kids[w].wait();
                if !ended[w] && stop_at.map_or(true, |t| Instant::now() < t) && !b.capped {
                    match at[w] {
                        Some(i) => {
                            b.violations.push((i, "crash".into(), format!("the process running this history ended abnormally ({:?})", st.ok())));
                            if stop_at.is_none() { stop_at = Some(Instant::now() + Duration::from_secs(2)); }
                        }
                        None => { b.error = Some(format!("worker {} failed to start: {:?}", w, st.ok())); }
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
        for w in 0..n as usize {
            if !ended[w] && at[w].is_some() && since[w].elapsed() > Duration::from_secs(HANG_SECS) && stop_at.is_none() {
                b.violations.push((at[w].unwrap(), "hang".into(), format!("the history did not finish within {} s", HANG_SECS)));
                stop_at = Some(Instant::now());
            }
        }
        let now = Instant::now();
        if now > deadline { b.capped = true; }
        if b.capped || stop_at.map_or(false, |t| now > t) {
            for k in kids.iter_mut() { let _ = k.kill(); let _ = k.wait(); }
            break;
        }
    }
    b.runs += partial.iter().sum::<u64>();
    b.wall = t0.elapsed().as_secs_f64();
    b.violations.sort();
    b
}

// ------------------------------------------------------------- minimisation

fn load(file: &str) -> Result<(&'static dyn Scenario, Plan), String> {
    let t = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file, e))?;
    let p = Plan::from_text(&t, &|id| scenario(id).map(|s| s.ops()))?;
    let sc = scenario(&p.prop).ok_or(format!("unknown scenario {}", p.prop))?;
    Ok((sc, p))
}

fn save(file: &Path, sc: &dyn Scenario, p: &Plan, note: &str) {
    let tmp = file.with_extension("tmp");
    std::fs::write(&tmp, p.to_text(sc.ops(), note)).expect("write replay");
    std::fs::rename(&tmp, file).expect("rename replay");
}

/// Shrink in this process, saving every improvement, so a crash loses nothing.
fn minimise(file: &str, out: &str, class: &str) -> i32 {
    let (sc, plan) = match load(file) { Ok(x) => x, Err(e) => { eprintln!("{}", e); return 2; } };
    let t0 = Instant::now();
    let fails = |p: &Plan| -> Option<Violation> {
        execute(sc, p, false).violation.filter(|v| v.class == class)
    };
    let mut best = plan;
    match fails(&best) {
        Some(v) => { best.steps.truncate(v.step + 1); if fails(&best).is_none() { best = load(file).unwrap().1; } }
        None => return 3,
    }
    save(Path::new(out), sc, &best, "");
    let over = || t0.elapsed() > Duration::from_secs(60);
    loop {
        let before = (best.steps.len(), best.steps.iter().map(|s| s.a + s.b + s.c + s.actor as u64).sum::<u64>(), best.cfg.values().sum::<u64>());
        // drop chunks of steps
        let mut chunk = (best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() && !over() {
                let mut c = best.clone();
                let end = (i + chunk).min(c.steps.len());
                c.steps.drain(i..end);
                if fails(&c).is_some() { best = c; save(Path::new(out), sc, &best, ""); } else { i += chunk; }
            }
            if chunk == 1 { break; }
            chunk = (chunk / 2).max(1);
        }
        // shrink configuration and arguments
        for k in best.cfg.keys().cloned().collect::<Vec<_>>() {
            for v in [0, 1, best.cfg[&k] / 2] {
                if v < best.cfg[&k] && !over() {
                    let mut c = best.clone();
                    c.cfg.insert(k.clone(), v);
                    if fails(&c).is_some() { best = c; save(Path::new(out), sc, &best, ""); }
                }
            }
        }
        for i in 0..best.steps.len() {
            for f in 0..4 {
                let cur = { let s = &best.steps[i]; [s.actor as u64, s.a, s.b, s.c][f] };
                for v in [0, 1, 2, 3, cur / 2] {
                    if v >= cur || over() { continue; }
                    let mut c = best.clone();
                    match f { 0 => c.steps[i].actor = v as u8, 1 => c.steps[i].a = v, 2 => c.steps[i].b = v, _ => c.steps[i].c = v }
                    if fails(&c).is_some() { best = c; save(Path::new(out), sc, &best, ""); break; }
                }
            }
        }
        let after = (best.steps.len(), best.steps.iter().map(|s| s.a + s.b + s.c + s.actor as u64).sum::<u64>(), best.cfg.values().sum::<u64>());
        if over() || after == before { break; }
    }
    0
}

/// status of a replay in a fresh process
fn replay_child(file: &Path) -> String {
    let exe = std::env::current_exe().expect("exe");
    let limit = match load(file.to_str().unwrap()) { Ok((_, p)) if p.cfg("~stride") > 0 => 240, _ => HANG_SECS };
    let mut k = match Command::new(exe).args(["replay", file.to_str().unwrap()]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(k) => k, Err(e) => return format!("error {}", e) };
    let mut pipe = k.stdout.take().unwrap();
    let reader = std::thread::spawn(move || { use std::io::Read; let mut b = vec![]; let _ = pipe.read_to_end(&mut b); String::from_utf8_lossy(&b).into_owned() });
    let t0 = Instant::now();
    loop {
        match k.try_wait() {
            Ok(Some(_)) => break,
            _ if t0.elapsed() > Duration::from_secs(limit) => { let _ = k.kill(); let _ = k.wait(); return "hang".into(); }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
    let so = reader.join().unwrap_or_default();
    for l in so.lines() { if let Some(c) = l.strip_prefix("class ") { return c.to_string(); } if l.starts_with("held") { return "held".into(); } }
    "crash".into()
}

fn replay(file: &str, verbose: bool) -> i32 {
    let (sc, plan) = match load(file) { Ok(x) => x, Err(e) => { eprintln!("{}", e); return 2; } };
    run_prelude(sc, &plan);
    let o = execute(sc, &plan, verbose);
    if verbose { for l in &o.ctx.log { println!("{}", l); } }
    println!("log {:016x} steps {}", o.ctx.hash, o.ctx.stats.steps);
    match o.violation {
        None if execute(sc, &plan, false).ctx.hash != o.ctx.hash => {
            println!("class {}", NONDET);
            println!("run again in this process, the history takes another course");
            println!("VIOLATION property={} replay={}", plan.prop.split('/').next().unwrap(), file);
            1
        }
        None => { println!("held"); 0 }
        Some(v) => {
            println!("class {}", v.class);
            println!("at step {}: {}", v.step, v.msg);
            println!("VIOLATION property={} replay={}", plan.prop.split('/').next().unwrap(), file);
            1
        }
    }
}

fn quick_try(id: &str, n: u64) -> i32 {
    let seed = master_seed();
    let scs: Vec<&'static dyn Scenario> = match property(id) { Some(p) => p.parts.to_vec(), None => vec![scenario(id).expect("scenario")] };
    for sc in scs {
        let t0 = Instant::now();
        let b = run_batch(sc, tier_of(&std::env::var("VERIF_TIER").unwrap_or_default()), seed, n, t0 + Duration::from_secs(3600), &["*".into()]);
        println!("{}: {} runs {:.1}s {} steps {} states {} logs, nondet {:?} err {:?}", sc.id(), b.runs, b.wall, b.steps, b.states.len(), b.logs.len(), b.nondet, b.error);
        for (k, v) in &b.counts { println!("   {} {}", v, k); }
        let mut cl: BTreeMap<&str, Vec<&(u64, String, String)>> = BTreeMap::new();
        for v in &b.violations { cl.entry(&v.1).or_default().push(v); }
        for (c, v) in cl { println!("  ! {} x{}: idx {} {}", c, v.len(), v[0].0, v[0].2); }
    }
    0
}

fn trace(id: &str, idx: u64) -> i32 {
    let sc = scenario(id).expect("scenario");
    let p = plan_for(sc, master_seed(), idx, tier_of(&std::env::var("VERIF_TIER").unwrap_or_default()));
    print!("{}", p.to_text(sc.ops(), ""));
    let o = execute(sc, &p, true);
    for l in &o.ctx.log { println!("# {}", l); }
    println!("# {:?}", o.violation);
    0
}

// ------------------------------------------------------------------- check

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c {
        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
        c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}

/// known findings: lines `finding: property=<id> scenario=<s> class=<c> replay=<file> <text>`
struct Known { prop: String, replay: String, class: String, text: String }
fn known_findings() -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut k = Known { prop: String::new(), replay: String::new(), class: String::new(), text: String::new() };
            let mut rest = vec![];
            for w in r.split_whitespace() {
                if let Some(x) = w.strip_prefix("property=") { k.prop = x.into(); }
                else if let Some(x) = w.strip_prefix("replay=") { k.replay = x.into(); }
                else if let Some(x) = w.strip_prefix("class=") { k.class = x.into(); }
                else { rest.push(w); }
            }
            k.text = rest.join(" ");
            v.push(k);
        }
    }
    v
}

/// a violation to report, and whether its history shows it in a process of its own
struct Found { sc: &'static dyn Scenario, idx: u64, class: String, msg: String, alone: bool }

fn replay_dir() -> PathBuf { let d = root().join("replays"); let _ = std::fs::create_dir_all(&d); d }
fn full_path(sc: &dyn Scenario, seed: u64, idx: u64) -> PathBuf { replay_dir().join(format!("{}-{}-{}.full.replay", sc.id().replace('/', "-"), seed, idx)) }

/// The first violation whose history alone reproduces it. If none does, the library
/// keeps state for the whole process, and the replay has to run the earlier histories first.
fn choose(sc: &'static dyn Scenario, tier: Tier, seed: u64, found: &[(u64, String, String)]) -> Found {
    let mk = |v: &(u64, String, String), alone| Found { sc, idx: v.0, class: v.1.clone(), msg: v.2.clone(), alone };
    for v in found.iter().take(6) {
        if v.1 == "hang" { return mk(v, true); }
        let f = full_path(sc, seed, v.0);
        save(&f, sc, &plan_for(sc, seed, v.0, tier), &format!("{}: {}", v.1, v.2));
        if replay_child(&f) == v.1 { return mk(v, true); }
        let _ = std::fs::remove_file(&f);
    }
    mk(&found[0], false)
}

/// configuration that makes a replay run what the worker of run `idx` had run before it
fn prelude(tier: Tier, seed: u64, idx: u64) -> Vec<(String, u64)> {
    let n = workers();
    vec![("~stride".into(), n), ("~start".into(), idx % n), ("~index".into(), idx), ("~seed".into(), seed), ("~thorough".into(), (tier == Tier::Thorough) as u64)]
}
fn run_prelude(sc: &'static dyn Scenario, plan: &Plan) {
    let stride = plan.cfg("~stride");
    if stride == 0 { return; }
    let tier = if plan.cfg("~thorough") == 1 { Tier::Thorough } else { Tier::Quick };
    let mut i = plan.cfg("~start");
    while i < plan.cfg("~index") { one(sc, plan.cfg("~seed"), i, tier); i += stride; }
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
    let seed = master_seed();
    let p = match property(id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    println!("seed {} tier {} property {}", seed, tier_name(tier), id);
    let cap = std::env::var("DST_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 240 } else { 3600 });
    let deadline = t0 + Duration::from_secs(cap);
    for k in known_findings().iter().filter(|k| k.prop == id) {
        // a listed finding is replayed from its committed history
        let c = replay_child(&root().join(&k.replay));
        if c == k.class { println!("KNOWN-FINDING: property={} {}", id, k.text); }
    }
    let mut parts_json = vec![];
    let mut samples = vec![];
    let mut evals = 0; let mut steps = 0; let mut twice = 0;
    let mut logs: HashSet<u64> = HashSet::new();
    let mut states = 0u64;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<Found> = None;
    let mut capped = false;
    let mut error = None;
    let mut sim_wall = 0.0;
    let scale = std::env::var("DST_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    for sc in p.parts {
        let runs = ((sc.runs(tier) as f64) * scale) as u64;
        let b = run_batch(*sc, tier, seed, runs.max(1), deadline, &[]);
        sim_wall += b.wall;
        evals += b.runs; steps += b.steps; twice += b.twice; states += b.states.len() as u64;
        for h in &b.logs { logs.insert(mix(*h, hash_str(sc.id()))); }
        for (k, v) in &b.counts { *counts.entry(k.clone()).or_insert(0) += v; }
        capped |= b.capped;
        parts_json.push(format!("{{\"scenario\":{},\"runs\":{},\"steps\":{},\"distinct_states\":{},\"distinct_event_logs\":{},\"wall_s\":{:.2}}}",
            js(sc.id()), b.runs, b.steps, b.states.len(), b.logs.len(), b.wall));
        for i in [0u64, 1] {
            let pl = plan_for(*sc, seed, i, tier);
            let mut t = String::new();
            for s in pl.steps.iter().take(25) { let _ = write!(t, "{}:{}({},{},{}) ", s.actor, sc.ops()[s.op as usize % sc.ops().len()], s.a, s.b, s.c); }
            samples.push(format!("{{\"scenario\":{},\"run\":{},\"run_seed\":{},\"cfg\":{},\"steps_total\":{},\"first_steps\":{}}}",
                js(sc.id()), i, js(&pl.seed.to_string()), js(&pl.cfg.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ")), pl.steps.len(), js(t.trim())));
        }
        if let Some(e) = b.error { error = Some(e); }
        let mut found = b.violations;
        // everything outside the library is under control here, so one history with two outcomes is its doing
        if found.is_empty() { found = b.nondet.iter().map(|i| (*i, NONDET.to_string(), "the same history, run again in the same process, took another course".to_string())).collect(); }
        if !found.is_empty() { violation = Some(choose(*sc, tier, seed, &found)); break; }
        if capped { break; }
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some(Found { sc, idx, class, msg, alone }) = &violation {
        nviol = 1;
        error = None;
        let raw = full_path(*sc, seed, *idx);
        let min = replay_dir().join(format!("{}-{}-{}.replay", sc.id().replace('/', "-"), seed, idx));
        let mut plan = plan_for(*sc, seed, *idx, tier);
        if !alone { plan.cfg.extend(prelude(tier, seed, *idx)); }
        save(&raw, *sc, &plan, &format!("{}: {}", class, msg));
        let mut file = raw.clone();
        let min_secs = std::env::var("DST_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
        if *alone && class != "hang" && class != "crash" && class != NONDET && min_secs > 0 {
            let exe = std::env::current_exe().unwrap();
            let mut k = Command::new(exe).args(["minimise", raw.to_str().unwrap(), min.to_str().unwrap(), class]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            let t = Instant::now();
            while k.try_wait().ok().flatten().is_none() && t.elapsed() < Duration::from_secs(min_secs) { std::thread::sleep(Duration::from_millis(50)); }
            let _ = k.kill(); let _ = k.wait();
            if min.exists() && replay_child(&min) == *class { file = min; }
        }
        let again = replay_child(&file);
        println!("run {} of {} (seed {}): {}: {}", idx, sc.id(), plan.seed, class, msg);
        println!("replay of {} in a fresh process: {}", file.display(), again);
        if let Ok(t) = std::fs::read_to_string(&file) { for l in t.lines().take(80) { println!("  | {}", l); } }
        println!("VIOLATION property={} replay={}", id, file.display());
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| k.starts_with("fault:")).collect();
    let probes: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| k.starts_with("probe:")).collect();
    let obj = |m: &BTreeMap<&String, &u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k.split_once(':').map(|x| x.1).unwrap_or(k)), v)).collect::<Vec<_>>().join(",");
    let rules: BTreeSet<&str> = p.parts.iter().map(|s| s.rule()).collect();
    let mut assumptions: BTreeSet<&str> = BTreeSet::new();
    for s in p.parts { assumptions.extend(s.assumptions()); }
    let mut real: BTreeSet<&str> = BTreeSet::new(); let mut stub: BTreeSet<&str> = BTreeSet::new();
    for s in p.parts { real.insert(s.real()); stub.insert(s.stub()); }
    let list = |v: &BTreeSet<&str>| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let ev = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"simulated_runs\":{},\"simulated_steps\":{},\"runs_per_hour\":{:.0},\"simulated_time\":{},\"faults_injected\":{{{}}},\"probes_reached\":{{{}}},\"oracle_comparisons\":{},\"distinct_abstract_states\":{},\"runs_repeated_for_determinism\":{},\"stopped_by_time_cap\":{},\"scenarios\":[{}],\"components_real\":[{}],\"components_stubbed\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(id), js(tier_name(tier)), seed, evals, logs.len(),
        js(&format!("{} A run counts as distinct when the hash of its complete event log (every step, every observed result, the abstract state after each step) is new.", rules.into_iter().collect::<Vec<_>>().join(" | "))),
        samples.join(","), evals, steps, evals as f64 / sim_wall.max(0.001) * 3600.0,
        js(p.parts[0].time()),
        obj(&faults), obj(&probes), counts.get("oracle:comparisons").copied().unwrap_or(0), states, twice, capped,
        parts_json.join(","), list(&real), list(&stub), list(&assumptions), wall, nviol);
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), ev) { eprintln!("evidence: {}", e); return 2; }
    if let Some(e) = error { eprintln!("harness error: {}", e); return 2; }
    if code == 1 { println!("VIOLATED; exploration stopped after {} runs, {:.1} s", evals, wall); return code; }
    println!("{} runs, {} steps, {} distinct histories, {:.1} s{}: {}", evals, steps, logs.len(), wall, if capped { " (time cap)" } else { "" }, "held");
    code
}
