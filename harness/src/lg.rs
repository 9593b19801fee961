//! Logging only observes: histories with and without the feature, log files against the records.
#[cfg(feature = "lg")]
pub use on::*;

/// Answers "job seed" lines with the digest of that history; the other side of the comparison.
pub fn serve() -> i32 {
    use std::io::{BufRead, Write};
    let jobs = crate::checks::logged();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let mut w = l.split(' ').map(|x| x.parse::<u64>().unwrap());
        let (k, seed) = (w.next().unwrap() as usize, w.next().unwrap());
        let r = crate::scen::run_seed(&jobs[k].1, jobs[k].2, seed, false);
        println!("{} {} {}", r.hash, r.decided.len(), r.f("ticks"));
        let _ = std::io::stdout().flush();
    }
    0
}

#[cfg(feature = "lg")]
mod on {
    use crate::{engine::*, monitor::Violation, profile::*, rng::Rng, sim::Sim};
    use slog::{Drain, OwnedKVList, Record};
    use std::{
        cell::RefCell,
        io::{BufRead, BufReader, Write},
        process::{Child, ChildStdin, ChildStdout, Command, Stdio},
        sync::Mutex,
    };
    thread_local! {
        static COUNT: RefCell<u64> = const { RefCell::new(0) };
        /// Server whose records are kept.
        static KEEP: RefCell<Option<usize>> = const { RefCell::new(None) };
        static KEPT: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
        /// Server that uses the default logger, and its path.
        static DEFAULT: RefCell<Option<(usize, Option<String>)>> = const { RefCell::new(None) };
    }
    struct Fmt(usize);
    impl Drain for Fmt {
        type Ok = ();
        type Err = slog::Never;
        fn log(&self, r: &Record, _: &OwnedKVList) -> Result<(), slog::Never> {
            let s = format!("{} {}", r.level().as_short_str(), r.msg());
            COUNT.with(|c| *c.borrow_mut() += 1);
            if KEEP.with(|k| *k.borrow() == Some(self.0)) {
                KEPT.with(|k| k.borrow_mut().push(s));
            }
            Ok(())
        }
    }
    pub fn logger(i: usize) -> Option<slog::Logger> {
        if DEFAULT.with(|d| d.borrow().as_ref().map(|x| x.0) == Some(i)) {
            return None;
        }
        Some(slog::Logger::root(Fmt(i), slog::o!()))
    }
    pub fn path(i: usize) -> Option<String> {
        DEFAULT.with(|d| d.borrow().as_ref().filter(|x| x.0 == i).and_then(|x| x.1.clone()))
    }
    /// The asynchronous logger gets time to write, or else it drops records.
    pub fn pace(i: usize) {
        if DEFAULT.with(|d| d.borrow().as_ref().map(|x| x.0) == Some(i)) {
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
    }
    type Served = (Child, ChildStdin, BufReader<ChildStdout>);
    static POOL: Mutex<Vec<Served>> = Mutex::new(vec![]);
    fn plain(k: usize, seed: u64) -> Option<String> {
        let got = POOL.lock().unwrap().pop();
        let mut s = match got {
            Some(s) => s,
            None => {
                let mut c = Command::new(std::env::var("VH_BASE").ok()?).arg("digests").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().ok()?;
                let (i, o) = (c.stdin.take()?, BufReader::new(c.stdout.take()?));
                (c, i, o)
            }
        };
        writeln!(s.1, "{} {}", k, seed).ok()?;
        s.1.flush().ok()?;
        let mut l = String::new();
        s.2.read_line(&mut l).ok()?;
        POOL.lock().unwrap().push(s);
        if l.is_empty() {
            None
        } else {
            Some(l.trim().to_string())
        }
    }
    pub fn job(k: usize) -> RunFn {
        Box::new(move |seed, trace| {
            let jobs = crate::checks::logged();
            COUNT.with(|c| *c.borrow_mut() = 0);
            let mut r = crate::scen::run_seed(&jobs[k].1, jobs[k].2, seed, trace);
            r.facts.insert("log records", COUNT.with(|c| *c.borrow()));
            let got = format!("{} {} {}", r.hash, r.decided.len(), r.f("ticks"));
            r.viol.retain(|v| v.prop == "C28");
            match plain(k, seed) {
                Some(want) if want == got => {
                    r.facts.insert("histories compared", 1);
                }
                Some(want) => r.viol.push(Violation {
                    prop: "C28",
                    step: 0,
                    msg: format!("with logging the same history went differently (digest, decided positions, ticks): {} instead of {}", got, want),
                }),
                None => {
                    eprintln!("the build without logging does not answer (VH_BASE)");
                    std::process::exit(2);
                }
            }
            r
        })
    }

    fn cluster(seed: u64) -> (crate::sim::SimCfg, usize, u64) {
        let mut r = Rng::new(seed);
        let p = Profile {
            kinds: vec![(1, Kind::NTrim)],
            nodes: vec![2, 3, 3, 5],
            crashes: 0,
            faults: 0,
            ui_pct: 0,
            read_pct: 0,
            reread_pct: 0,
            steps: (20, 250),
            ..Profile::default()
        };
        let (_, mut cfg) = p.gen(&mut r);
        cfg.faults = false;
        cfg.crashes = false;
        let i = r.below(cfg.n());
        (cfg, i, r.next())
    }
    fn play(cfg: crate::sim::SimCfg, s: u64) {
        let mut sim: Sim<crate::entry::ValN> = Sim::new(cfg, s);
        sim.boot();
        sim.chaos();
        for _ in 0..20 {
            sim.round();
        }
    }
    /// Runs in its own folder: the history once with kept records, once with the default logger.
    pub fn child(a: &[String]) -> i32 {
        let seed: u64 = a[0].parse().unwrap();
        let path = if a[1].is_empty() { None } else { Some(a[1].clone()) };
        let (cfg, i, s) = cluster(seed);
        KEEP.with(|k| *k.borrow_mut() = Some(i));
        play(cfg.clone(), s);
        KEEP.with(|k| *k.borrow_mut() = None);
        println!("{}", serde_json::to_string(&KEPT.with(|k| k.borrow().clone())).unwrap());
        DEFAULT.with(|d| *d.borrow_mut() = Some((i, path)));
        play(cfg, s);
        0
    }
    /// Text without terminal control sequences.
    fn bare(s: &str) -> String {
        let mut o = String::new();
        let mut it = s.chars();
        while let Some(c) = it.next() {
            match c {
                '\x1b' => {
                    if it.next() == Some('[') {
                        for d in it.by_ref() {
                            if d.is_ascii_alphabetic() {
                                break;
                            }
                        }
                    } else {
                        it.next();
                    }
                }
                '\x0f' | '\r' => (),
                c => o.push(c),
            }
        }
        o
    }
    /// "Nov 18 02:54:33.123 INFO text" -> "INFO text"
    fn records(s: &str) -> Vec<String> {
        bare(s).lines().map(|l| l.get(20..).unwrap_or(l).to_string()).collect()
    }
    fn listing(d: &std::path::Path, out: &mut Vec<String>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                listing(&p, out);
            } else {
                out.push(p.to_string_lossy().into_owned());
            }
        }
    }
    /// None when `got` shows the records `want`, except for those it reports as dropped.
    fn differs(want: &[String], got: &[String]) -> Option<String> {
        let dropped = got.iter().any(|l| l.contains("dropped messages"));
        if !dropped {
            let k = want.iter().zip(got).position(|(a, b)| a != b).or(if want.len() != got.len() { Some(want.len().min(got.len())) } else { None })?;
            return Some(format!("record {} is {:?}, logged was {:?} ({} and {} records)", k, got.get(k), want.get(k), got.len(), want.len()));
        }
        let mut k = 0;
        for g in got.iter().filter(|l| !l.contains("dropped messages")) {
            match want[k..].iter().position(|w| w == g) {
                Some(d) => k += d + 1,
                None => return Some(format!("{:?} was not logged (there)", g)),
            }
        }
        None
    }
    pub fn files() -> RunFn {
        Box::new(|seed, _| {
            let mut out = RunOut { hash: seed, ..Default::default() };
            let mut r = Rng::new(seed ^ 0x10c5);
            let (cfg, i, _) = cluster(seed);
            let dir = std::env::temp_dir().join(format!("vh-lg-{}-{}", std::process::id(), seed));
            std::fs::create_dir_all(&dir).expect("scratch folder");
            let abs = dir.join("x/y/z.log").to_string_lossy().into_owned();
            let path = match r.below(5) {
                0 | 1 => String::new(),
                2 => "some/where/deep/server.log".to_string(),
                3 => "server.log".to_string(),
                _ => abs,
            };
            let name = if path.is_empty() { format!("logs/paxos_{}.log", cfg.pids[i]) } else { path.clone() };
            let file = dir.join(&name);
            // The log of an earlier run may be replaced or continued.
            let old: String = if r.below(2) == 0 { String::new() } else { (0..r.range(1, 6000)).map(|k| format!("old record {}\n", k)).collect() };
            if !old.is_empty() {
                std::fs::create_dir_all(file.parent().unwrap()).and_then(|_| std::fs::write(&file, &old)).expect("scratch folder");
            }
            out.desc = format!("seed {} server {} of {:?}, log file {:?} ({} bytes before)", seed, cfg.pids[i], cfg.pids, path, old.len());
            let res = Command::new(std::env::current_exe().unwrap()).args(["lg-child", &seed.to_string(), &path]).current_dir(&dir).stdin(Stdio::null()).output();
            let mut bad = |m: String| out.viol.push(Violation { prop: "C28", step: 0, msg: m });
            match res {
                Ok(o) => {
                    let (so, se) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
                    let (first, rest) = so.split_once('\n').unwrap_or(("", ""));
                    let want: Option<Vec<String>> = serde_json::from_str(first).ok();
                    let mut all = vec![];
                    listing(&dir, &mut all);
                    if let Some(want) = want.filter(|_| o.status.success()) {
                        let others: Vec<_> = all.iter().filter(|f| **f != file.to_string_lossy()).collect();
                        let text = std::fs::read(&file).map(|b| String::from_utf8_lossy(&b).into_owned());
                        match text {
                            Err(e) => bad(format!("no log file {}: {}; there are {:?}", name, e, all)),
                            Ok(t) => {
                                let f = records(if old.is_empty() { &t } else { t.strip_prefix(&old).unwrap_or(&t) });
                                let term: Vec<String> = [records(rest), records(&se)].concat();
                                if let Some(d) = differs(&want, &f) {
                                    bad(format!("log file: {}", d));
                                } else if let Some(d) = differs(&want, &term) {
                                    bad(format!("terminal: {}", d));
                                }
                                out.facts.insert("records compared", f.len() as u64);
                                out.facts.insert("records dropped and reported", f.iter().any(|l| l.contains("dropped messages")) as u64);
                            }
                        }
                        if !others.is_empty() {
                            out.viol.push(Violation { prop: "C28", step: 0, msg: format!("further files {:?}", others) });
                        }
                    } else {
                        bad(format!("a server with the default logger died: {} {}", o.status, se.lines().last().unwrap_or("")));
                    }
                }
                Err(e) => {
                    eprintln!("cannot start a child: {}", e);
                    std::process::exit(2);
                }
            }
            let _ = std::fs::remove_dir_all(&dir);
            out
        })
    }
    /// More records at once than the asynchronous logger can take.
    pub fn burst_child(a: &[String]) -> i32 {
        let (n, w): (usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap());
        let l = omnipaxos::utils::logger::create_logger("burst.log");
        for k in 0..n {
            slog::info!(l, "record {} {}.", k, "x".repeat(w));
        }
        // Records that were dropped are reported along with a later one.
        for _ in 0..60 {
            std::thread::sleep(std::time::Duration::from_millis(100));
            slog::info!(l, "end");
            std::thread::sleep(std::time::Duration::from_millis(5));
            if std::fs::read_to_string("burst.log").is_ok_and(|t| t.ends_with(" end\n")) {
                break;
            }
        }
        0
    }
    pub fn bursts() -> RunFn {
        Box::new(|seed, _| {
            let mut out = RunOut { hash: seed, ..Default::default() };
            let mut r = Rng::new(seed ^ 0xb57);
            let (n, w) = (r.range(200, 6000), r.below(120));
            out.desc = format!("seed {}: {} records of {} bytes and more at once", seed, n, w);
            let dir = std::env::temp_dir().join(format!("vh-lb-{}-{}", std::process::id(), seed));
            std::fs::create_dir_all(&dir).expect("scratch folder");
            let res = Command::new(std::env::current_exe().unwrap()).args(["lg-burst", &n.to_string(), &w.to_string()]).current_dir(&dir).stdin(Stdio::null()).output();
            let o = res.unwrap_or_else(|e| {
                eprintln!("cannot start a child: {}", e);
                std::process::exit(2)
            });
            let file = std::fs::read(dir.join("burst.log")).unwrap_or_default();
            let _ = std::fs::remove_dir_all(&dir);
            let mut bad = |m: String| out.viol.push(Violation { prop: "C28", step: 0, msg: m });
            if !o.status.success() {
                bad(format!("logging {} records failed: {}", n, o.status));
                return out;
            }
            for (what, text) in [("log file", file), ("terminal", [o.stdout, o.stderr].concat())] {
                let text = bare(&String::from_utf8_lossy(&text));
                let (mut next, mut shown, mut reported, mut ends) = (0usize, 0usize, 0usize, 0);
                for l in text.lines() {
                    if l.contains("dropped messages") {
                        // The number of dropped records.
                        let c: String = l.rsplit(|c: char| !c.is_ascii_digit()).next().unwrap_or("").to_string();
                        reported += c.parse::<usize>().unwrap_or(0);
                    } else if let Some((_, t)) = l.split_once(" record ") {
                        let k = t.split(' ').next().and_then(|k| k.parse::<usize>().ok());
                        match k {
                            Some(k) if k >= next && k < n && *t == format!("{} {}.", k, "x".repeat(w)) => {
                                next = k + 1;
                                shown += 1;
                            }
                            _ => bad(format!("{}: {:?} after record {}", what, l, next)),
                        }
                    } else if l.ends_with(" end") {
                        ends += 1;
                    } else {
                        bad(format!("{}: {:?} was not logged", what, l));
                    }
                }
                if ends == 0 || n - shown > reported {
                    bad(format!("{}: {} of {} records are shown, {} are reported as dropped, the last one is{} shown", what, shown, n, reported, if ends == 0 { " not" } else { "" }));
                }
                out.facts.insert(if what == "terminal" { "burst records on the terminal" } else { "burst records in the file" }, shown as u64);
                out.facts.insert("burst records reported as dropped", reported as u64);
            }
            out
        })
    }
}
