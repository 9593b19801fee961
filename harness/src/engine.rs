//! Runs the jobs of a property in parallel, judges the outcomes, writes evidence and replay files.
use crate::{monitor::Violation, rng::mix};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub type Facts = BTreeMap<&'static str, u64>;
#[derive(Default)]
pub struct RunOut {
    pub viol: Vec<Violation>,
    pub hash: u64,
    pub facts: Facts,
    pub log: Vec<String>,
    pub desc: String,
    pub decided: Vec<u64>,
    /// Executions this run stands for, when it made several (0: one).
    pub evals: u64,
    /// Hashes of the further executions.
    pub more: Vec<u64>,
}
impl RunOut {
    pub fn f(&self, k: &str) -> u64 {
        self.facts.get(k).copied().unwrap_or(0)
    }
}
pub fn get(f: &Facts, k: &str) -> u64 {
    f.get(k).copied().unwrap_or(0)
}
pub type RunFn = Box<dyn Fn(u64, bool) -> RunOut + Sync + Send>;
/// One kind of execution, run for many seeds.
pub struct Job {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: RunFn,
    /// Violations (by the tag the monitors give them) that break the property of this check.
    pub tags: Vec<&'static str>,
    pub nontrivial: fn(&Facts) -> bool,
    pub rule: &'static str,
}
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub jobs: Vec<Job>,
    pub assumptions: Vec<&'static str>,
    /// Whether a call that never returns breaks the property.
    pub must_return: bool,
}
pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub scale: f64,
    pub out: String,
    /// Adds to the evidence of another build's part of the same check.
    pub merge: bool,
}
pub fn seed_of(base: u64, salt: &str, k: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in salt.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(base ^ 0x5eed) ^ mix(h) ^ mix(k.wrapping_mul(0x1000193)))
}
struct Found {
    job: usize,
    seed: u64,
    tag: &'static str,
    msg: String,
}

pub fn known_findings(root: &str, id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.json", root)) else {
        return vec![];
    };
    let Ok(v) = serde_json::from_str::<Value>(&s) else {
        return vec![];
    };
    let mut r = vec![];
    for e in v["known"].as_array().cloned().unwrap_or_default() {
        if e["property"] == id {
            r.push((e["contains"].as_str().unwrap_or("\u{0}").to_string(), e["what"].as_str().unwrap_or("").to_string()));
        }
    }
    r
}

/// The evidence of two parts of one check.
fn merged(mut a: Value, b: Value) -> Value {
    let sum = |a: &mut Value, b: &Value| {
        *a = match (a.as_u64(), b.as_u64()) {
            (Some(x), Some(y)) => json!(x + y),
            _ => json!(a.as_f64().unwrap_or(0.0) + b.as_f64().unwrap_or(0.0)),
        }
    };
    for k in ["wall_s", "violations"] {
        sum(&mut a[k], &b[k]);
    }
    for k in ["evaluations", "distinct_nontrivial"] {
        sum(&mut a["coverage"][k], &b["coverage"][k]);
    }
    for k in ["samples", "jobs"] {
        let more = b["coverage"][k].as_array().cloned().unwrap_or_default();
        if let Some(v) = a["coverage"][k].as_array_mut() {
            v.extend(more);
        }
    }
    for k in ["observed", "violations_of_other_properties_seen"] {
        for (f, v) in b["coverage"][k].as_object().cloned().unwrap_or_default() {
            let x = &mut a["coverage"][k][&f];
            if f.starts_with("max ") {
                *x = json!(x.as_u64().unwrap_or(0).max(v.as_u64().unwrap_or(0)));
            } else {
                *x = json!(x.as_u64().unwrap_or(0) + v.as_u64().unwrap_or(0));
            }
        }
    }
    let rule = format!("{} | {}", a["coverage"]["rule"].as_str().unwrap_or(""), b["coverage"]["rule"].as_str().unwrap_or(""));
    a["coverage"]["rule"] = json!(rule);
    a
}

pub fn run_check(c: &Check, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let tier = if o.thorough { "thorough" } else { "quick" };
    let thorough_secs = std::env::var("VERIF_THOROUGH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(780);
    let cap = Duration::from_secs(if o.thorough { thorough_secs } else { 240 });
    let known = known_findings(&o.out, c.id);
    let skip: Option<u64> = std::env::var("VH_SKIP").ok().and_then(|s| s.parse().ok());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known_hit: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let mut cov_jobs = vec![];
    let mut evaluations = 0u64;
    let mut distinct_all = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut events: Facts = Facts::new();
    let mut incidental: BTreeMap<String, u64> = BTreeMap::new();
    let mut stop_all = false;
    for (ji, j) in c.jobs.iter().enumerate() {
        if stop_all {
            break;
        }
        let n = ((if o.thorough { j.thorough } else { j.quick }) as f64 * o.scale).ceil() as u64;
        // Jobs share the time: job i of m is over after (i + 1) / m of it at the latest.
        let until = cap * (ji as u32 + 1) / c.jobs.len() as u32;
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let agg: Mutex<(Facts, HashSet<u64>, u64, Vec<Value>, BTreeMap<String, u64>)> = Mutex::new(Default::default());
        // What every worker is running and since when (for the watchdog).
        let busy: Vec<Mutex<Option<(u64, Instant)>>> = (0..8).map(|_| Mutex::new(None)).collect();
        let finished = AtomicBool::new(false);
        let workers = AtomicU64::new(8);
        std::thread::scope(|s| {
            for w in 0..8usize {
                let (next, done, stop, agg, busy, finished, workers, found, known, known_hit) =
                    (&next, &done, &stop, &agg, &busy, &finished, &workers, &found, &known, &known_hit);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut local = Facts::new();
                        let mut hashes: Vec<u64> = vec![];
                        let mut inc: BTreeMap<String, u64> = BTreeMap::new();
                        loop {
                            let k = next.fetch_add(1, Ordering::Relaxed);
                            if k >= n || stop.load(Ordering::Relaxed) || t0.elapsed() > until {
                                break;
                            }
                            let seed = seed_of(o.seed, j.name, k);
                            if skip == Some(seed) {
                                continue;
                            }
                            *busy[w].lock().unwrap() = Some((seed, Instant::now()));
                            let run = || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.run)(seed, k < 1))).map_err(|_| crate::sim::last_panic());
                            let mut r = run();
                            // Runs are deterministic except for the threads of RocksDB: what they bring about alone
                            // is not the library's doing and does not come back in further executions.
                            let hit = |r: &Result<RunOut, String>| match r {
                                Ok(r) => r.viol.iter().any(|v| j.tags.contains(&v.prop)),
                                Err(_) => true,
                            };
                            if j.name.starts_with("persistent storage") && hit(&r) {
                                let (r2, r3) = (run(), run());
                                if !hit(&r2) || !hit(&r3) {
                                    *inc.entry("not reproduced".to_string()).or_insert(0) += 1;
                                    r = if hit(&r2) { r3 } else { r2 };
                                }
                            }
                            let r = match r {
                                Ok(r) => r,
                                // Library code that panics where the monitors call it with valid arguments.
                                Err(m) if m.contains("/omnipaxos") => {
                                    let v = crate::monitor::Violation { prop: j.tags[0], step: 0, msg: format!("panic in the library: {}", m) };
                                    RunOut { viol: vec![v], ..Default::default() }
                                }
                                Err(m) => {
                                    println!("no answer: panic {} (job {} seed {})", m, j.name, seed);
                                    std::process::exit(2);
                                }
                            };
                            *busy[w].lock().unwrap() = None;
                            done.fetch_add(r.evals.max(1), Ordering::Relaxed);
                            for (k, v) in &r.facts {
                                let e = local.entry(k).or_insert(0);
                                if k.starts_with("max ") {
                                    *e = (*e).max(*v)
                                } else {
                                    *e += v
                                }
                            }
                            if (j.nontrivial)(&r.facts) {
                                hashes.push(r.hash);
                                hashes.extend(&r.more);
                            }
                            if k < 1 {
                                let mut lines: Vec<String> = r.log.iter().take(40).map(|l| l.chars().take(240).collect()).collect();
                                if r.log.len() > 40 {
                                    lines.push(format!("... {} more events", r.log.len() - 40));
                                }
                                agg.lock().unwrap().3.push(json!({"job": j.name, "seed": seed, "case": r.desc, "events": lines}));
                            }
                            for v in r.viol {
                                if j.tags.contains(&v.prop) {
                                    if let Some((_, what)) = known.iter().find(|(p, _)| v.msg.contains(p.as_str())) {
                                        *known_hit.lock().unwrap().entry(what.clone()).or_insert(0) += 1;
                                        continue;
                                    }
                                    let mut f = found.lock().unwrap();
                                    if f.len() < 200 {
                                        f.push(Found { job: ji, seed, tag: v.prop, msg: v.msg });
                                    }
                                    if f.len() > 8 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                } else {
                                    *inc.entry(v.prop.to_string()).or_insert(0) += 1;
                                }
                            }
                        }
                        let mut g = agg.lock().unwrap();
                        for (k, v) in local {
                            let e = g.0.entry(k).or_insert(0);
                            if k.starts_with("max ") {
                                *e = (*e).max(v)
                            } else {
                                *e += v
                            }
                        }
                        g.2 += hashes.len() as u64;
                        g.1.extend(hashes);
                        for (k, v) in inc {
                            *g.4.entry(k).or_insert(0) += v;
                        }
                        if workers.fetch_sub(1, Ordering::SeqCst) == 1 {
                            finished.store(true, Ordering::SeqCst);
                        }
                    })
                    .unwrap();
            }
            // Watchdog: a run that never ends.
            while !finished.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for b in &busy {
                    let x = *b.lock().unwrap();
                    if let Some((seed, since)) = x {
                        if since.elapsed() > Duration::from_secs(90) {
                            // Once, in case RocksDB got stuck by itself: the same check without this run.
                            if j.name.starts_with("persistent storage") && std::env::var("VH_SKIP").is_err() {
                                println!("note: a run did not end within 90 s (job {} seed {}), starting over without it", j.name, seed);
                                let me = std::env::current_exe().expect("own path");
                                let st = std::process::Command::new(me).args(std::env::args().skip(1)).env("VH_SKIP", seed.to_string()).status();
                                std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(2));
                            }
                            if c.must_return {
                                let p = format!("{}/replays/{}-{}-{}.txt", o.out, c.id, j.name, seed);
                                let _ = std::fs::create_dir_all(format!("{}/replays", o.out));
                                let _ = std::fs::write(&p, format!("check {}\njob {}\nseed {}\nmessage a call did not return within 90 s\n", c.id, j.name, seed));
                                println!("a run did not end within 90 s (job {} seed {})", j.name, seed);
                                println!("VIOLATION property={} replay={}", c.id, p);
                                std::process::exit(1);
                            }
                            println!("no answer: a run did not end within 90 s (job {} seed {})", j.name, seed);
                            std::process::exit(2);
                        }
                    }
                }
            }
        });
        let (facts, set, nontrivial, smp, inc) = agg.into_inner().unwrap();
        let dn = done.load(Ordering::Relaxed);
        evaluations += dn;
        distinct_all += set.len() as u64;
        samples.extend(smp);
        for (k, v) in inc {
            *incidental.entry(k).or_insert(0) += v;
        }
        for (k, v) in &facts {
            let e = events.entry(k).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(*v)
            } else {
                *e += v
            }
        }
        cov_jobs.push(json!({
            "job": j.name, "executions": dn, "planned": n, "nontrivial": nontrivial, "distinct_nontrivial": set.len(),
            "rule": j.rule
        }));
        if !found.lock().unwrap().is_empty() {
            stop_all = true;
        }
        // Coverage the judgement rests on must have been observed.
        if dn >= 50 && set.is_empty() && found.lock().unwrap().is_empty() {
            println!("note: job {} observed nothing relevant in {} executions", j.name, dn);
        }
    }
    let found = found.into_inner().unwrap();
    let rule: Vec<String> = c.jobs.iter().map(|j| format!("{}: {}", j.name, j.rule)).collect();
    let ev = json!({
        "property": c.id, "tier": tier, "seed": o.seed as i64, "level": c.level,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct_all,
            "rule": rule.join(" | "),
            "samples": samples, "jobs": cov_jobs, "observed": events,
            "violations_of_other_properties_seen": incidental
        },
        "assumptions": c.assumptions, "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.len()
    });
    let file = format!("{}/evidence/{}.json", o.out, c.id);
    let ev = match std::fs::read_to_string(&file).ok().filter(|_| o.merge).and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        Some(first) => merged(first, ev),
        None => ev,
    };
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.out));
    if let Err(e) = std::fs::write(&file, serde_json::to_string_pretty(&ev).unwrap()) {
        println!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{} {}: {} executions, {} distinct non-trivial, {:.1} s",
        c.id,
        tier,
        evaluations,
        distinct_all,
        t0.elapsed().as_secs_f64()
    );
    for (what, k) in known_hit.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {} ({} times)", c.id, what, k);
    }
    if found.is_empty() {
        return 0;
    }
    // Re-run the first violation with a trace and keep it for replay.
    let f = found.iter().min_by_key(|f| (f.job, f.seed)).unwrap();
    let j = &c.jobs[f.job];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.run)(f.seed, true))).unwrap_or_default();
    let mut s = format!("check {}\njob {}\nseed {}\ntag {}\nmessage {}\ncase {}\n", c.id, j.name, f.seed, f.tag, f.msg, r.desc);
    for l in &r.log {
        s.push_str(l);
        s.push('\n');
    }
    for v in &r.viol {
        s.push_str(&format!("violation {} at step {}: {}\n", v.prop, v.step, v.msg));
    }
    let _ = std::fs::create_dir_all(format!("{}/replays", o.out));
    let p = format!("{}/replays/{}-{}-{}.txt", o.out, c.id, j.name.replace(' ', "_"), f.seed);
    let _ = std::fs::write(&p, s);
    println!("{} violating executions; first: job {} seed {} [{}] {}", found.len(), j.name, f.seed, f.tag, f.msg);
    println!("VIOLATION property={} replay={}", c.id, p);
    1
}
