//! Parent/worker processes, evidence, replay files.

use crate::engine::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static PANIC: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("OZZCHECK_TRACE").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut p) = PANIC.lock() {
            if p.is_empty() {
                *p = format!("panic: {msg} at {loc}");
            }
        }
    }));
}

pub fn run_case(f: &Facet, src: &mut Src, case: &mut Case) -> Res {
    PANIC.lock().map(|mut p| p.clear()).ok();
    crate::alloc_guard::take_corrupt();
    crate::alloc_guard::take_empty();
    let r = catch_unwind(AssertUnwindSafe(|| (f.run)(src, case)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(PANIC.lock().map(|p| p.clone()).unwrap_or_else(|_| "panic".into())),
    };
    let c = crate::alloc_guard::take_corrupt();
    if r.is_ok() && c != 0 {
        return Err("heap corruption: memory around an allocated block was overwritten".into());
    }
    if r.is_ok() && crate::alloc_guard::take_empty() != 0 {
        return Err("zero-sized memory was requested from the allocator (undefined behaviour)".into());
    }
    r
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn tier() -> String {
    std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())
}
fn root() -> PathBuf {
    std::env::var_os("OZZCHECK_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn scale() -> f64 {
    std::env::var("OZZCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
fn count(f: &Facet) -> u64 {
    let n = if tier() == "thorough" { f.thorough } else { f.quick };
    ((n as f64 * scale()).ceil() as u64).max(1)
}
fn facet_filter(p: &Prop) -> Vec<Facet> {
    match std::env::var("OZZCHECK_FACET") {
        Ok(n) => p.facets.iter().filter(|f| f.name.contains(&n)).copied().collect(),
        Err(_) => p.facets.to_vec(),
    }
}

/// Signatures listed in known_findings.json for a property.
fn known(prop: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(root().join("known_findings.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    let mut out = Vec::new();
    if let Some(a) = v.get("known").and_then(|a| a.as_array()) {
        for e in a {
            if e["property"] == prop {
                out.push((e["signature"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()));
            }
        }
    }
    out
}
fn is_known<'t>(kf: &'t [(String, String)], msg: &str) -> Option<&'t str> {
    kf.iter().find(|(s, _)| !s.is_empty() && msg.starts_with(&format!("<{s}> "))).map(|(s, _)| s.as_str())
}

pub fn main(props: Vec<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(find(&args[2])),
        Some("worker") => worker(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap(), Path::new(&args[5])),
        Some("one") => one(find(&args[2]), &args[3], &args[4]),
        Some("draws") => draws(find(&args[2]), &args[3], args[4].parse().unwrap(), &args[5]),
        Some("replay") => replay(&props, &args[2]),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
                for f in p.facets {
                    println!("  {} quick={} thorough={}", f.name, f.quick, f.thorough);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: ozzcheck check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}

#[derive(Default)]
struct Stat {
    evals: u64,
    nontrivial: u64,
    known: BTreeMap<String, u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

fn worker(p: &Prop, w: u64, n: u64, dir: &Path) -> i32 {
    let prog = fs::File::create(dir.join(format!("prog{w}"))).unwrap();
    let kf = known(p.id);
    let mut stats: Vec<(String, Stat)> = Vec::new();
    let mut hashes: Vec<u64> = Vec::new();
    let mut failure = Value::Null;
    let seed = seed();
    'outer: for (fi, f) in facet_filter(p).iter().enumerate() {
        let mut st = Stat::default();
        let total = count(f);
        let mut idx = w;
        while idx < total {
            if n > 1 && idx % 64 == w && dir.join("stop").exists() {
                stats.push((f.name.to_string(), st));
                break 'outer;
            }
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&(fi as u64).to_le_bytes());
            buf[8..].copy_from_slice(&idx.to_le_bytes());
            prog.write_all_at(&buf, 0).unwrap();
            let mut src = Src::random(case_seed(seed, p.id, f.name, idx), idx);
            let mut case = Case::default();
            let r = run_case(f, &mut src, &mut case);
            st.evals += 1;
            if case.nontrivial {
                st.nontrivial += 1;
                // distinct cases are counted up to 20 million per worker
                if hashes.len() < 20_000_000 { hashes.push(if src.rec.len() <= 1 && src.rec.iter().all(|v| *v == 0) { mix(hash_str(f.name), idx) } else { tape_hash(f.name, &src.rec) }); }
                if st.samples.len() < 2 && w < 2 && r.is_ok() {
                    let mut c2 = Case { want_desc: true, ..Case::default() };
                    let tape = src.rec.clone();
                    let _ = run_case(f, &mut Src::replay(&tape, idx), &mut c2);
                    st.samples.push(format!("{}#{}: {}", f.name, idx, c2.desc));
                }
            }
            for l in &case.labels {
                *st.labels.entry(l).or_default() += 1;
            }
            if let Err(msg) = r {
                if let Some(s) = is_known(&kf, &msg) {
                    *st.known.entry(s.to_string()).or_default() += 1;
                } else {
                    let _ = fs::write(dir.join("stop"), b"");
                    let (tape, msg2, desc) = shrink_inproc(f, &src.rec, idx, &msg, &kf);
                    failure = json!({"facet": f.name, "index": idx, "tape": tape, "message": msg2, "case": desc, "original_message": msg});
                    stats.push((f.name.to_string(), st));
                    break 'outer;
                }
            }
            idx += n;
        }
        stats.push((f.name.to_string(), st));
    }
    hashes.sort_unstable();
    hashes.dedup();
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("hash{w}")), hb).unwrap();
    let facets: Vec<Value> = stats.iter().map(|(name, s)| json!({"name": name, "evals": s.evals, "nontrivial": s.nontrivial, "labels": s.labels, "samples": s.samples, "known": s.known})).collect();
    fs::write(dir.join(format!("out{w}.json")), json!({"facets": facets, "failure": failure}).to_string()).unwrap();
    0
}

fn shrink_inproc(f: &Facet, tape: &[u64], idx: u64, msg: &str, kf: &[(String, String)]) -> (Vec<u64>, String, String) {
    let t0 = Instant::now();
    let mut execs = 0u32;
    // A crash while shrinking must not lose the failure: `prog` still names the case.
    let best = shrink(
        tape.to_vec(),
        |cand| {
            let mut s = Src::replay(cand, idx);
            match run_case(f, &mut s, &mut Case::default()) {
                Err(m) if is_known(kf, &m).is_none() => Some(s.rec),
                _ => None,
            }
        },
        || {
            execs += 1;
            execs < 20_000 && t0.elapsed() < Duration::from_secs(30)
        },
    );
    let mut c = Case { want_desc: true, ..Case::default() };
    let mut s = Src::replay(&best, idx);
    match run_case(f, &mut s, &mut c) {
        Err(m) => (s.rec, m, c.desc),
        Ok(()) => {
            let mut c = Case { want_desc: true, ..Case::default() };
            let _ = run_case(f, &mut Src::replay(tape, idx), &mut c);
            (tape.to_vec(), msg.to_string(), c.desc)
        }
    }
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn tape_string(t: &[u64]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}

/// Runs one tape (argument: file "index\ntape") in this process.
fn one(p: &Prop, facet: &str, file: &str) -> i32 {
    let text = fs::read_to_string(file).unwrap();
    let mut lines = text.lines();
    let idx: u64 = lines.next().unwrap().parse().unwrap();
    let tape = parse_tape(lines.next().unwrap_or(""));
    let f = p.facets.iter().find(|f| f.name == facet).unwrap();
    let mut c = Case { want_desc: true, ..Case::default() };
    let mut s = Src::replay(&tape, idx);
    // Leave the normalised tape behind even if the run crashes.
    match run_case(f, &mut s, &mut c) {
        Ok(()) => {
            println!("PASS {}", c.desc);
            0
        }
        Err(m) => {
            println!("FAIL {m}\n{}", c.desc);
            1
        }
    }
}

enum OneResult {
    Pass,
    Fail(String),
    Crash(String),
    Hang,
    Unknown,
}

/// A case takes milliseconds; one that takes this long does not terminate.
const HANG: Duration = Duration::from_secs(60);

/// Seconds of processor time a process has used.
fn cpu_seconds(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

fn spawn_one(p: &Prop, facet: &str, idx: u64, tape: &[u64], dir: &Path) -> OneResult {
    let file = dir.join("one.tape");
    fs::write(&file, format!("{idx}\n{}\n", tape_string(tape))).unwrap();
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["one", p.id, facet, file.to_str().unwrap()])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn();
    let Ok(mut child) = child else { return OneResult::Unknown };
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                let out = child.wait_with_output().unwrap();
                let so = String::from_utf8_lossy(&out.stdout).to_string();
                let se = String::from_utf8_lossy(&out.stderr).to_string();
                let asan = st.code() == Some(86) || se.contains("AddressSanitizer");
                if let Some(sig) = st.signal() {
                    return OneResult::Crash(format!("process killed by signal {sig}: {}", se.lines().take(12).collect::<Vec<_>>().join(" | ")));
                }
                if asan {
                    return OneResult::Crash(format!("sanitizer: {}", se.lines().filter(|l| !l.trim().is_empty()).take(12).collect::<Vec<_>>().join(" | ")));
                }
                return match st.code() {
                    Some(0) => OneResult::Pass,
                    Some(1) => OneResult::Fail(so),
                    _ => OneResult::Unknown,
                };
            }
            Ok(None) => {
                // judged by processor time, so a slow or paused machine is no hang;
                // one that does not even use the processor is deadlocked
                if t0.elapsed() > HANG && (cpu_seconds(child.id()) > HANG.as_secs_f64() * 0.9 || t0.elapsed() > HANG * 4) {
                    let _ = child.kill();
                    let _ = child.wait();
                    return OneResult::Hang;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(_) => return OneResult::Unknown,
        }
    }
}

fn replay(props: &[Prop], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("json");
    let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("property");
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let dir = root().join("work").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let r = spawn_one(p, v["facet"].as_str().unwrap(), v["index"].as_u64().unwrap_or(0), &tape, &dir);
    let _ = fs::remove_dir_all(&dir);
    match r {
        OneResult::Pass => {
            println!("replay passes");
            0
        }
        OneResult::Fail(m) | OneResult::Crash(m) => {
            println!("{m}\nVIOLATION property={} replay={}", p.id, file);
            1
        }
        OneResult::Hang => {
            println!("does not finish within {} s\nVIOLATION property={} replay={}", HANG.as_secs(), p.id, file);
            1
        }
        OneResult::Unknown => 2,
    }
}

fn write_replay(p: &Prop, fail: &Value) -> PathBuf {
    let dir = root().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let tape: Vec<u64> = fail["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
    let h = tape_hash(fail["facet"].as_str().unwrap_or(""), &tape);
    let path = dir.join(format!("{}-{}-{:016x}.json", p.id, fail["facet"].as_str().unwrap_or("x"), h));
    let mut v = fail.clone();
    v["property"] = json!(p.id);
    v["seed"] = json!(seed());
    v["build"] = json!(if cfg!(sanitize = "address") { "asan" } else { "main" });
    v["how_to_replay"] = json!(format!("bash run.sh replay {}", path.display()));
    fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

/// The default check: deterministic shards in worker processes.
fn check(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if tier() == "thorough" { 6 * 3600 } else { 780 });
    let n: u64 = std::env::var("OZZCHECK_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = root().join("work").join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for w in 0..n {
        let err = fs::File::create(dir.join(format!("err{w}"))).unwrap();
        kids.push((
            w,
            Command::new(&exe)
                .args(["worker", p.id, &w.to_string(), &n.to_string(), dir.to_str().unwrap()])
                .stderr(Stdio::from(err))
                .spawn()
                .expect("spawn worker"),
            None,
        ));
    }
    let mut timed_out = false;
    let mut seen: Vec<(Vec<u8>, Instant)> = vec![(Vec::new(), Instant::now()); n as usize];
    let mut looked = Instant::now();
    loop {
        let mut live = false;
        let look = looked.elapsed() > Duration::from_secs(1);
        if look { looked = Instant::now(); }
        for (w, k, st) in kids.iter_mut() {
            if st.is_none() {
                match k.try_wait().unwrap() {
                    Some(s) => *st = Some(s),
                    None => live = true,
                }
            }
            if look && st.is_none() {
                // a worker that stays in one case is stopped; the case is judged below
                let now = fs::read(dir.join(format!("prog{w}"))).unwrap_or_default();
                let e = &mut seen[*w as usize];
                if now != e.0 {
                    *e = (now, Instant::now());
                } else if e.1.elapsed() > HANG + HANG / 2 {
                    eprintln!("worker {w} does not finish its case");
                    let _ = k.kill();
                    if let Ok(s) = k.wait() { *st = Some(s); }
                }
            }
        }
        if !live {
            break;
        }
        if t0.elapsed() > limit {
            timed_out = true;
            for (_, k, st) in kids.iter_mut() {
                if st.is_none() {
                    let _ = k.kill();
                    let _ = k.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    if timed_out {
        for (w, _, _) in &kids {
            if let Ok(b) = fs::read(dir.join(format!("prog{w}"))) {
                if b.len() == 16 {
                    eprintln!("worker {w}: at facet {} case {}", u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()));
                }
            }
        }
        eprintln!("ERROR: {} ran out of time; inconclusive", p.id);
        let _ = fs::remove_dir_all(&dir);
        return 2;
    }

    let facets = facet_filter(p);
    let mut failures: Vec<Value> = Vec::new();
    let mut merged: BTreeMap<String, (u64, u64, BTreeMap<String, u64>, Vec<String>)> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u64> = Vec::new();
    let mut error = false;
    for (w, _, st) in &kids {
        let st = st.unwrap();
        if st.code() == Some(0) {
            let v: Value = serde_json::from_str(&fs::read_to_string(dir.join(format!("out{w}.json"))).unwrap()).unwrap();
            for f in v["facets"].as_array().unwrap() {
                let e = merged.entry(f["name"].as_str().unwrap().to_string()).or_default();
                e.0 += f["evals"].as_u64().unwrap();
                e.1 += f["nontrivial"].as_u64().unwrap();
                for (k, c) in f["labels"].as_object().unwrap() {
                    *e.2.entry(k.clone()).or_default() += c.as_u64().unwrap();
                }
                for s in f["samples"].as_array().unwrap() {
                    e.3.push(s.as_str().unwrap().to_string());
                }
                for (k, c) in f["known"].as_object().unwrap() {
                    *known_seen.entry(k.clone()).or_default() += c.as_u64().unwrap();
                }
            }
            if !v["failure"].is_null() {
                failures.push(v["failure"].clone());
            }
            let hb = fs::read(dir.join(format!("hash{w}"))).unwrap();
            for c in hb.chunks_exact(8) {
                hashes.push(u64::from_le_bytes(c.try_into().unwrap()));
            }
        } else {
            // Crash: find the case, confirm and shrink it in child processes.
            let b = fs::read(dir.join(format!("prog{w}"))).unwrap_or_default();
            let err = fs::read_to_string(dir.join(format!("err{w}"))).unwrap_or_default();
            if b.len() != 16 {
                eprintln!("ERROR: worker {w} died before its first case: {st:?}\n{err}");
                error = true;
                continue;
            }
            let fi = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
            let idx = u64::from_le_bytes(b[8..].try_into().unwrap());
            let f = &facets[fi];
            eprintln!("worker {w} died ({st:?}) in {}#{idx}", f.name);
            match crash_failure(p, f, idx, &dir) {
                Some(v) => failures.push(v),
                None => {
                    if st.signal() == Some(9) {
                        eprintln!("ERROR: worker {w} was killed (out of memory?)");
                    } else {
                        eprintln!("ERROR: worker {w} died ({st:?}) but the case does not reproduce alone: {}", err.lines().take(20).collect::<Vec<_>>().join(" | "));
                    }
                    error = true;
                }
            }
        }
    }
    hashes.sort_unstable();
    hashes.dedup();

    let evals: u64 = merged.values().map(|m| m.0).sum();
    let nontriv: u64 = merged.values().map(|m| m.1).sum();
    let mut samples = Vec::new();
    let mut per_facet = serde_json::Map::new();
    for (name, m) in &merged {
        per_facet.insert(name.clone(), json!({"cases": m.0, "nontrivial": m.1, "labels": m.2}));
        samples.extend(m.3.iter().take(2).cloned());
    }
    let mut assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    assumptions.push(format!("cases are a pure function of VERIF_SEED, property, facet and case index; {n} worker processes"));
    let mut ev = json!({
        "property": p.id,
        "tier": tier(),
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "nontrivial": nontriv,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "facets": per_facet,
            "known_findings_hit": known_seen,
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    if let Ok(extra) = std::env::var("OZZCHECK_EXTRA_EVIDENCE") {
        if let Ok(v) = serde_json::from_str::<Value>(&extra) {
            ev["coverage"]["extra"] = v;
        }
    }
    if cfg!(sanitize = "address") {
        ev["coverage"]["extra"] = json!({"address_sanitizer_run": {"evaluations": evals, "nontrivial": nontriv}});
    }
    let _ = fs::create_dir_all(root().join("evidence"));
    fs::write(root().join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = fs::remove_dir_all(&dir);

    for (s, what) in known(p.id) {
        println!("KNOWN-FINDING: property={} {} [{} hits this run]", p.id, what, known_seen.get(&s).unwrap_or(&0));
    }
    println!("{}: {} cases, {} non-trivial ({} distinct), {:.1}s", p.id, evals, nontriv, hashes.len(), t0.elapsed().as_secs_f64());
    if !failures.is_empty() {
        failures.sort_by_key(|f| {
            let fi = facets.iter().position(|x| x.name == f["facet"].as_str().unwrap_or("")).unwrap_or(99);
            (fi, f["tape"].as_array().map(|a| a.len()).unwrap_or(0), f["index"].as_u64().unwrap_or(0))
        });
        for f in failures.iter() {
            println!("failing {}#{}: {}", f["facet"].as_str().unwrap_or(""), f["index"], f["message"].as_str().unwrap_or(""));
            println!("  case: {}", f["case"].as_str().unwrap_or(""));
        }
        let path = write_replay(p, &failures[0]);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    if error {
        return 2;
    }
    // A generator that stopped producing interesting cases is an error of the check.
    if evals > 200 && nontriv * 20 < evals {
        eprintln!("ERROR: only {nontriv} of {evals} cases were non-trivial");
        return 2;
    }
    0
}

/// Runs one random case in this process, streaming its draws to a file.
fn draws(p: &Prop, facet: &str, idx: u64, file: &str) -> i32 {
    let f = p.facets.iter().find(|f| f.name == facet).unwrap();
    let mut src = Src::random(case_seed(seed(), p.id, f.name, idx), idx);
    src.log = Some(fs::File::create(file).unwrap());
    match run_case(f, &mut src, &mut Case::default()) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

/// A worker died in this case: record its draws in a child, confirm that the
/// recorded tape crashes on its own, and shrink it with one child per attempt.
fn crash_failure(p: &Prop, f: &Facet, idx: u64, dir: &Path) -> Option<Value> {
    let log = dir.join("draws");
    if let Ok(mut k) = Command::new(std::env::current_exe().unwrap())
        .args(["draws", p.id, f.name, &idx.to_string(), log.to_str().unwrap()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        let t0 = Instant::now();
        while k.try_wait().ok().flatten().is_none() {
            if t0.elapsed() > HANG {
                let _ = k.kill();
                let _ = k.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    let tape = parse_tape(fs::read_to_string(&log).unwrap_or_default().trim_end_matches(','));
    let mut msg = match spawn_one(p, f.name, idx, &tape, dir) {
        OneResult::Crash(m) => m,
        OneResult::Fail(m) => return Some(json!({"facet": f.name, "index": idx, "tape": tape, "message": m, "case": ""})),
        OneResult::Hang => return Some(json!({"facet": f.name, "index": idx, "tape": tape, "message": format!("does not finish within {} s", HANG.as_secs()), "case": ""})),
        _ => return None,
    };
    let t0 = Instant::now();
    let mut execs = 0;
    let best = shrink(
        tape,
        |c| match spawn_one(p, f.name, idx, c, dir) {
            OneResult::Crash(m) => {
                msg = m;
                Some(c.to_vec())
            }
            _ => None,
        },
        || {
            execs += 1;
            execs < 400 && t0.elapsed() < Duration::from_secs(60)
        },
    );
    Some(json!({"facet": f.name, "index": idx, "tape": best, "message": format!("crash: {msg}"), "case": ""}))
}
