#![allow(dead_code)]
mod abi;
mod cfgs;
mod ea;
mod fw;
mod generic;
mod gens;
mod history;
mod integrands;
mod integrated;
mod physical;
mod pymod;
mod pts;
mod quad;
mod quark;
mod refs;
mod registry;
mod settings;
mod stat;
mod tc;
mod util;
mod vac;

use fw::{run_property, Property, Tier};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

fn properties() -> Vec<Property> {
    let mut v = vec![];
    v.extend(vac::properties());
    v.extend(integrands::properties());
    v.extend(integrated::properties());
    v.extend(generic::properties());
    v.extend(cfgs::properties());
    v.extend(quark::properties());
    v.extend(stat::properties());
    v.extend(util::properties());
    v.extend(settings::properties());
    v.extend(tc::properties());
    v.extend(abi::properties());
    v.extend(physical::properties());
    v.extend(pymod::properties());
    v
}

fn home() -> PathBuf {
    PathBuf::from(std::env::var("QSV_HOME").unwrap_or_else(|_| "/verif".into()))
}

/// Known findings: {"findings":[{"property","signature","what"}], "fixed":[...]}
fn known(pid: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let Ok(s) = fs::read_to_string(home().join("known_findings.json")) else { return m };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
    for f in v["findings"].as_array().into_iter().flatten() {
        if f["property"] == pid {
            m.insert(f["signature"].as_str().unwrap().into(), f["what"].as_str().unwrap().into());
        }
    }
    m
}

fn find(pid: &str) -> Property {
    properties().into_iter().find(|p| p.id == pid).unwrap_or_else(|| {
        eprintln!("unknown property {pid}");
        exit(2)
    })
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn worker(pid: &str, tier: Tier, seed: u64, work: &Path, only: Option<&str>) {
    fw::install_hook();
    vac::limit_depth(pid);
    let p = find(pid);
    let kn: HashSet<String> = known(pid).into_keys().collect();
    let o = run_property(&p, tier, seed, work, &kn, only);
    let v = serde_json::json!({
        "evals": o.evals, "nontrivial": o.nontrivial, "classes": o.classes, "samples": o.samples,
        "failures": o.failures.iter().map(|(s,c,m)| serde_json::json!({"sub":s,"case":c,"message":m})).collect::<Vec<_>>(),
        "known": o.known, "errors": o.errors,
    });
    fs::write(work.join("result.json"), serde_json::to_string(&v).unwrap()).unwrap();
}

/// exit 0: case passes, 1: case violates the property, 2: cannot replay
fn replay(path: &str, quiet: bool) -> i32 {
    fw::install_hook();
    let v: serde_json::Value = match fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let p = find(v["property"].as_str().unwrap_or(""));
    vac::limit_depth(p.id);
    let name = v["sub"].as_str().unwrap_or("");
    if let Some(i) = p.init {
        i();
    }
    let Some(s) = (p.subs)().into_iter().find(|s| s.name() == name) else {
        eprintln!("unknown sub-check {name}");
        return 2;
    };
    match s.replay(&v["case"]) {
        Ok(Ok(c)) => {
            if !quiet {
                println!("PASS {c:?}");
            }
            0
        }
        Ok(Err(m)) => {
            if !quiet {
                println!("FAIL {m}");
            }
            1
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

fn wait_limit(ch: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

const STUCK: u64 = 120;
/// A case on which some thread of the worker has been busy for too long.
fn stuck(work: &Path) -> Option<(serde_json::Value, u64)> {
    for e in fs::read_dir(work).ok()?.flatten() {
        let age = e.metadata().ok().and_then(|m| m.modified().ok()).and_then(|m| m.elapsed().ok()).map_or(0, |d| d.as_secs());
        if age > STUCK && e.file_name().to_string_lossy().starts_with("cur-") {
            if let Some(v) = fs::read_to_string(e.path()).ok().and_then(|t| serde_json::from_str(&t).ok()) {
                return Some((v, age));
            }
        }
    }
    None
}

fn check(pid: &str, tier: Tier, seed: u64, only: Option<&str>) -> i32 {
    let p = find(pid);
    let t0 = Instant::now();
    let work = home().join("work").join(format!("{pid}-{}", std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let limit = if tier == Tier::Quick { 840 } else { 4 * 3600 };
    let mut ch = Command::new(exe())
        .args(["worker", pid, "--tier", tname, "--seed", &seed.to_string()])
        .args(only.map(|o| ["--sub", o]).into_iter().flatten())
        .env("QSV_WORK", &work)
        .stdout(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
        .unwrap();
    let mut failures: Vec<serde_json::Value> = vec![];
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        // a single case normally takes milliseconds: one that does not come back is a failure of the library
        if let Some((v, s)) = stuck(&work) {
            let _ = ch.kill();
            let _ = ch.wait();
            failures.push(serde_json::json!({"sub": v["sub"], "case": v["case"], "message": format!("evaluation did not return within {s} s")}));
            break None;
        }
        if t0.elapsed() > Duration::from_secs(limit) {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let mut res = serde_json::Value::Null;
    let mut errors: Vec<String> = vec![];
    match status {
        None if !failures.is_empty() => {}
        None => errors.push("worker exceeded the time limit (inconclusive)".into()),
        Some(s) => {
            if let Ok(t) = fs::read_to_string(work.join("result.json")) {
                res = serde_json::from_str(&t).unwrap();
                failures.extend(res["failures"].as_array().unwrap().iter().cloned());
                errors.extend(res["errors"].as_array().unwrap().iter().map(|e| e.to_string()));
            } else {
                // The worker died (abort/segfault inside the library): find the culprit case.
                let mut found = false;
                let mut curs: Vec<_> = fs::read_dir(&work).unwrap().flatten().map(|e| e.path()).collect();
                curs.sort();
                for c in curs {
                    let Ok(t) = fs::read_to_string(&c) else { continue };
                    let Ok(mut v) = serde_json::from_str::<serde_json::Value>(&t) else { continue };
                    v["property"] = pid.into();
                    let rp = work.join("crash.json");
                    fs::write(&rp, v.to_string()).unwrap();
                    let mut ch = Command::new(exe()).args(["replay-quiet"]).arg(&rp).stdin(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
                    if let Some(st) = wait_limit(&mut ch, Duration::from_secs(60)) {
                        if st.code() != Some(0) && st.code() != Some(2) {
                            failures.push(serde_json::json!({"sub": v["sub"], "case": v["case"], "message": format!("process died while evaluating: {st}")}));
                            found = true;
                            break;
                        }
                    }
                }
                if !found {
                    errors.push(format!("worker died ({s}) without a reproducible case"));
                }
            }
        }
    }
    for (sig, what) in known(pid) {
        println!("KNOWN-FINDING: property={pid} [{sig}] {what}");
    }
    let mut code = 0;
    let rdir = home().join("replays");
    for (i, f) in failures.iter().enumerate() {
        fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{pid}-{}-{i}.json", std::process::id()));
        let mut v = f.clone();
        v["property"] = pid.into();
        fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("  {} case={} : {}", f["sub"], f["case"], f["message"]);
        println!("VIOLATION property={pid} replay={}", path.display());
        code = 1;
    }
    let ev = serde_json::json!({
        "property": pid, "tier": tname, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evals"].as_u64().unwrap_or(0),
            "distinct_nontrivial": res["nontrivial"].as_u64().unwrap_or(0),
            "rule": p.rule,
            "samples": if res["samples"].is_array() { res["samples"].clone() } else { serde_json::json!([]) },
            "classes": res["classes"],
            "known_finding_cases": res["known"],
        },
        "violations": failures.len(),
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let edir = home().join("evidence");
    fs::create_dir_all(&edir).unwrap();
    fs::write(edir.join(format!("{pid}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = fs::remove_dir_all(&work);
    if code == 0 && !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR property={pid} {e}");
        }
        code = 3;
    }
    println!(
        "{pid} {tname} seed={seed}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s",
        ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], failures.len(), t0.elapsed().as_secs_f64()
    );
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let tier = match opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = opt("--sub");
    match a.get(1).map(String::as_str) {
        Some("check") => exit(check(&a[2], tier, seed, only.as_deref())),
        Some("worker") => worker(&a[2], tier, seed, &PathBuf::from(std::env::var("QSV_WORK").unwrap()), only.as_deref()),
        Some("replay") => exit(replay(&a[2], false)),
        Some("replay-quiet") => exit(replay(&a[2], true)),
        Some("c23-child") => settings::child(&a[2]),
        Some("hist-child") => history::child(&a[2]),
        Some("list") => {
            for p in properties() {
                for s in (p.subs)() {
                    println!("{} {} {:?}", p.id, s.name(), (s.cases(Tier::Quick), s.cases(Tier::Thorough)));
                }
            }
        }
        _ => {
            eprintln!("usage: qsv check|replay|list");
            exit(2)
        }
    }
}
