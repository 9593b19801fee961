#![cfg_attr(feature = "lg", allow(dead_code, unused_imports))]
mod checks;
#[cfg_attr(any(feature = "uc", feature = "ps", feature = "lg"), allow(dead_code))]
mod conf;
#[cfg(feature = "uc")]
mod codec;
mod engine;
#[cfg(not(any(feature = "uc", feature = "ps", feature = "ui")))]
mod lg;
mod entry;
mod monitor;
mod profile;
mod rng;
mod scen;
mod sim;
#[cfg(feature = "ps")]
mod stor;
mod store;
#[cfg(feature = "ui")]
mod ui;

fn arg(a: &[String], name: &str) -> Option<String> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn main() {
    sim::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let usage = "vh check <PROP> [--tier quick|thorough] [--seed N] [--scale F] [--out DIR] [--merge] | vh replay <FILE>";
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 2 => match checks::check(&a[2]) {
            Some(c) => {
                let o = engine::Opts {
                    thorough: arg(&a, "--tier").as_deref() == Some("thorough"),
                    seed: arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                    scale: arg(&a, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                    out: arg(&a, "--out").unwrap_or("/verif".into()),
                    merge: a.iter().any(|x| x == "--merge"),
                };
                engine::run_check(&c, &o)
            }
            None => {
                eprintln!("no check for {} in this build", a[2]);
                2
            }
        },
        #[cfg(not(any(feature = "uc", feature = "ps", feature = "ui")))]
        Some("digests") => lg::serve(),
        #[cfg(feature = "lg")]
        Some("lg-child") => lg::child(&a[2..]),
        #[cfg(feature = "lg")]
        Some("lg-burst") => lg::burst_child(&a[2..]),
        #[cfg(feature = "ui")]
        Some("ui-child") => ui::child(&a[2..]),
        #[cfg(feature = "ps")]
        Some("ps-child") => stor::child(&a[2..]),
        Some("replay") if a.len() > 2 => {
            let s = std::fs::read_to_string(&a[2]).expect("cannot read the replay file");
            let f = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            match checks::check(&f("check ")) {
                Some(c) => {
                    let seed: u64 = f("seed ").parse().unwrap();
                    let j = c.jobs.iter().find(|j| j.name == f("job ")).expect("unknown job");
                    let r = (j.run)(seed, true);
                    println!("{}", r.desc);
                    for l in &r.log {
                        println!("{}", l);
                    }
                    for v in &r.viol {
                        println!("{} at step {}: {}", v.prop, v.step, v.msg);
                    }
                    r.viol.iter().any(|v| j.tags.contains(&v.prop)) as i32
                }
                None => 2,
            }
        }
        _ => {
            eprintln!("{}", usage);
            2
        }
    };
    std::process::exit(code);
}
