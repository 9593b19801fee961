//! Configurations in code and in TOML files against the documented rules (property C22).
use crate::{
    engine::{Facts, RunFn, RunOut},
    monitor::Violation,
    rng::{mix, Rng},
    sim::last_panic,
};
#[cfg(feature = "uc")]
use crate::entry::uc::UcLru as ValN;
#[cfg(not(feature = "uc"))]
use crate::entry::ValN;
use omnipaxos::{errors::ConfigError, util::FlexibleQuorum, ClusterConfig, OmniPaxosConfig, ServerConfig};
use omnipaxos_storage::memory_storage::MemoryStorage;
use std::{
    error::Error,
    panic::{catch_unwind, AssertUnwindSafe},
};

pub fn toml_file(tag: &str) -> String {
    let root = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm".into() } else { std::env::temp_dir() };
    let t: String = format!("{:?}", std::thread::current().id()).chars().filter(|c| c.is_ascii_digit()).collect();
    format!("{}/vh-{}-{}-{}.toml", root.display(), std::process::id(), t, tag)
}
/// The file a user would write for this configuration, all fields given.
pub fn toml_text(c: &OmniPaxosConfig) -> String {
    text(c, &mut |_| true, false)
}
fn text(c: &OmniPaxosConfig, keep: &mut dyn FnMut(&str) -> bool, inline: bool) -> String {
    let (cc, sc) = (&c.cluster_config, &c.server_config);
    let mut a = vec![];
    if keep("configuration_id") {
        a.push(format!("configuration_id = {}", cc.configuration_id));
    }
    if keep("nodes") {
        a.push(format!("nodes = {:?}", cc.nodes));
    }
    let mut fq_table = String::new();
    if let Some(q) = cc.flexible_quorum {
        if inline {
            a.push(format!("flexible_quorum = {{ read_quorum_size = {}, write_quorum_size = {} }}", q.read_quorum_size, q.write_quorum_size));
        } else {
            fq_table = format!("[cluster_config.flexible_quorum]\nwrite_quorum_size = {}\nread_quorum_size = {}\n", q.write_quorum_size, q.read_quorum_size);
        }
    }
    let mut b = vec![];
    let fields: [(&str, u64); 7] = [
        ("pid", sc.pid),
        ("election_tick_timeout", sc.election_tick_timeout),
        ("resend_message_tick_timeout", sc.resend_message_tick_timeout),
        ("flush_batch_tick_timeout", sc.flush_batch_tick_timeout),
        ("buffer_size", sc.buffer_size as u64),
        ("batch_size", sc.batch_size as u64),
        ("leader_priority", sc.leader_priority as u64),
    ];
    for (k, v) in fields {
        if keep(k) {
            b.push(format!("{} = {}", k, v));
        }
    }
    let c = format!("[cluster_config]\n{}\n{}", a.join("\n"), fq_table);
    let s = format!("[server_config]\n{}\n", b.join("\n"));
    if inline {
        format!("{}{}", s, c)
    } else {
        format!("{}{}", c, s)
    }
}

fn cluster_ok(c: &ClusterConfig) -> bool {
    let n = c.nodes.len() as u128;
    n > 1
        && c.configuration_id != 0
        && match c.flexible_quorum {
            None => true,
            Some(q) => {
                let (r, w) = (q.read_quorum_size as u128, q.write_quorum_size as u128);
                r + w > n && (2..=n).contains(&r) && (2..=n).contains(&w) && r >= w
            }
        }
}
fn server_ok(s: &ServerConfig) -> bool {
    s.pid != 0
        && s.buffer_size != 0
        && s.batch_size != 0
        && s.election_tick_timeout != 0
        && s.resend_message_tick_timeout != 0
        && s.flush_batch_tick_timeout != 0
}
fn num(r: &mut Rng, small: usize, extreme: bool) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 if extreme => (i64::MAX as u64) - r.below(3) as u64,
        _ => r.range(1, small) as u64,
    }
}
fn gen(r: &mut Rng, in_code: bool) -> OmniPaxosConfig {
    let n = *r.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9]);
    let mut ids: Vec<u64> = (1..=(n as u64 + 4)).collect();
    if r.chance(30) {
        for x in ids.iter_mut() {
            *x *= 3;
        }
    }
    r.shuffle(&mut ids);
    let other = ids.pop().unwrap();
    ids.truncate(n);
    let pid = match r.below(12) {
        0 => 0,
        1 => other,
        _ if n > 0 => *r.pick(&ids),
        _ => other,
    };
    let q = |r: &mut Rng| match r.below(14) {
        0 => 0,
        1 => 1,
        2 if in_code => usize::MAX - r.below(2),
        2 => i64::MAX as usize,
        3 => n + 1,
        4 => n,
        5 => 2,
        _ => r.range(1, n.max(1)),
    };
    let flexible_quorum = if r.chance(55) {
        let rd = q(r);
        let w = match r.below(4) {
            0 => (n + 1).saturating_sub(rd),
            1 => n.saturating_sub(rd),
            2 if rd > 0 && rd < 20 => (rd + 1).min(n),
            _ => q(r),
        };
        Some(FlexibleQuorum { read_quorum_size: rd, write_quorum_size: w })
    } else {
        None
    };
    let configuration_id = match r.below(10) {
        0 => 0,
        1 => u32::MAX,
        _ => r.range(1, 20) as u32,
    };
    // Most fields valid, so that each rule is decided on its own.
    let fix = |r: &mut Rng, v: u64| if v == 0 && r.chance(60) { 1 } else { v };
    let t = |r: &mut Rng| {
        let v = num(r, 300, true);
        fix(r, v)
    };
    let sc = ServerConfig {
        pid,
        election_tick_timeout: t(r),
        resend_message_tick_timeout: t(r),
        flush_batch_tick_timeout: t(r),
        buffer_size: {
            let v = num(r, 2000, false);
            fix(r, v) as usize
        },
        batch_size: {
            let v = num(r, 2000, false);
            fix(r, v) as usize
        },
        leader_priority: *r.pick(&[0, 1, 2, 77, u32::MAX]),
        ..Default::default()
    };
    OmniPaxosConfig { cluster_config: ClusterConfig { configuration_id, nodes: ids, flexible_quorum }, server_config: sc }
}
fn key(c: &OmniPaxosConfig) -> String {
    let s = &c.server_config;
    format!(
        "{:?} pid={} el={} re={} fl={} buf={} batch={} prio={}",
        c.cluster_config, s.pid, s.election_tick_timeout, s.resend_message_tick_timeout, s.flush_batch_tick_timeout, s.buffer_size, s.batch_size, s.leader_priority
    )
}
fn kind(e: &ConfigError) -> &'static str {
    match e {
        ConfigError::ReadFile(_) => "unreadable",
        ConfigError::Parse(_) => "malformed",
        ConfigError::InvalidConfig(_) => "invalid",
    }
}
fn sane(e: &ConfigError) -> bool {
    let mut n = 0;
    let mut s: Option<&(dyn Error + 'static)> = e.source();
    while let Some(x) = s {
        n += 1;
        if n > 50 {
            return false;
        }
        s = x.source();
    }
    !e.to_string().is_empty()
}

struct Ctx {
    viol: Vec<Violation>,
    facts: Facts,
    log: Vec<String>,
}
impl Ctx {
    fn bad(&mut self, m: String) {
        self.viol.push(Violation { prop: "C22", step: 0, msg: m });
    }
    fn verdict<R>(&mut self, what: &str, want: bool, c: &dyn Fn() -> String, f: impl FnOnce() -> Result<R, ConfigError>) -> Option<R> {
        *self.facts.entry("verdicts compared").or_insert(0) += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Err(_) => {
                self.bad(format!("{} panicked ({}) on {}", what, last_panic(), c()));
                None
            }
            Ok(Ok(x)) => {
                if !want {
                    self.bad(format!("{} accepted a configuration that breaks the rules: {}", what, c()));
                }
                Some(x)
            }
            Ok(Err(e)) => {
                if want {
                    self.bad(format!("{} refused a correct configuration: {} ({})", what, c(), e));
                } else if kind(&e) != "invalid" {
                    self.bad(format!("{} reports a configuration that breaks the rules as {}: {}", what, kind(&e), c()));
                } else if !sane(&e) {
                    self.bad(format!("{}: the error for {} has no text or an endless cause", what, c()));
                }
                None
            }
        }
    }
}

pub fn job() -> RunFn {
    Box::new(|seed, trace| {
        let mut r = Rng::new(seed);
        let mut x = Ctx { viol: vec![], facts: Facts::new(), log: vec![] };
        let mut hash = 0u64;
        let mut evals = 0;
        let file = toml_file("c");
        for _ in 0..40 {
            evals += 1;
            // In code, with arbitrary values.
            let c = gen(&mut r, true);
            let k = key(&c);
            for b in k.bytes() {
                hash = mix(hash ^ b as u64);
            }
            let (co, so) = (cluster_ok(&c.cluster_config), server_ok(&c.server_config));
            let ok = co && so && c.cluster_config.nodes.contains(&c.server_config.pid);
            *x.facts.entry(if ok { "accepted configurations" } else { "refused configurations" }).or_insert(0) += 1;
            if trace {
                x.log.push(format!("{} expected {}", k, ok));
            }
            let d = || k.clone();
            x.verdict("ClusterConfig::validate", co, &d, || c.cluster_config.validate());
            x.verdict("ServerConfig::validate", so, &d, || c.server_config.validate());
            x.verdict("OmniPaxosConfig::validate", ok, &d, || c.validate());
            // Building allocates the buffers.
            if c.server_config.buffer_size < 100_000 && c.server_config.batch_size < 100_000 {
                let c1 = c.clone();
                if let Some(op) = x.verdict("build", ok, &d, move || c1.build(MemoryStorage::<ValN>::default())) {
                    if op.get_decided_idx() != 0 || op.get_current_leader().is_some() {
                        x.bad(format!("a new server built from {} is not empty", k));
                    }
                }
                let c1 = c.clone();
                x.verdict("build_for_server", ok, &d, move || {
                    c1.cluster_config.build_for_server(c1.server_config, MemoryStorage::<ValN>::default())
                });
            }
            // From a file.
            let c = gen(&mut r, false);
            let all = r.chance(50);
            let inline = r.chance(50);
            let mut missing = vec![];
            let mut txt = text(
                &c,
                &mut |f| {
                    let keep = all || r.chance(85);
                    if !keep {
                        missing.push(f.to_string());
                    }
                    keep
                },
                inline,
            );
            let mut want = c.clone();
            let (dc, ds) = (ClusterConfig::default(), ServerConfig::default());
            for f in &missing {
                match f.as_str() {
                    "configuration_id" => want.cluster_config.configuration_id = dc.configuration_id,
                    "nodes" => want.cluster_config.nodes = dc.nodes.clone(),
                    "pid" => want.server_config.pid = ds.pid,
                    "election_tick_timeout" => want.server_config.election_tick_timeout = ds.election_tick_timeout,
                    "resend_message_tick_timeout" => want.server_config.resend_message_tick_timeout = ds.resend_message_tick_timeout,
                    "flush_batch_tick_timeout" => want.server_config.flush_batch_tick_timeout = ds.flush_batch_tick_timeout,
                    "buffer_size" => want.server_config.buffer_size = ds.buffer_size,
                    "batch_size" => want.server_config.batch_size = ds.batch_size,
                    "leader_priority" => want.server_config.leader_priority = ds.leader_priority,
                    _ => unreachable!(),
                }
            }
            if r.chance(30) {
                txt = format!("# a comment\n{}# another\n", txt);
            }
            let broken = match r.below(25) {
                0 => {
                    txt = txt.replace("configuration_id = ", "configuration_id = \"x\" #");
                    !missing.contains(&"configuration_id".to_string())
                }
                1 => {
                    txt.push_str("\nthis is = = not toml");
                    true
                }
                2 => {
                    txt = txt.replace("pid = ", "pid = -");
                    !missing.contains(&"pid".to_string()) && c.server_config.pid != 0
                }
                _ => false,
            };
            let ok = cluster_ok(&want.cluster_config) && server_ok(&want.server_config) && want.cluster_config.nodes.contains(&want.server_config.pid);
            if let Err(e) = std::fs::write(&file, &txt) {
                println!("cannot write the scratch file: {}", e);
                std::process::exit(2);
            }
            let k = key(&want);
            if trace {
                x.log.push(format!("file {} expected {} broken {}", k, ok, broken));
            }
            let d = || format!("{} (file {:?})", k, txt);
            if broken {
                match catch_unwind(|| OmniPaxosConfig::with_toml(&file)) {
                    Ok(Err(e)) if kind(&e) == "malformed" && sane(&e) => (),
                    Ok(Err(e)) => x.bad(format!("with_toml reports a malformed file as {}: {:?}", kind(&e), txt)),
                    Ok(Ok(_)) => x.bad(format!("with_toml accepted a malformed file: {:?}", txt)),
                    Err(_) => x.bad(format!("with_toml panicked on {:?}", txt)),
                }
                *x.facts.entry("malformed files").or_insert(0) += 1;
            } else {
                *x.facts.entry("files compared").or_insert(0) += 1;
                if let Some(got) = x.verdict("with_toml", ok, &d, || OmniPaxosConfig::with_toml(&file)) {
                    if key(&got) != k {
                        x.bad(format!("with_toml yields {} for {}", key(&got), d()));
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&file);
        match catch_unwind(|| OmniPaxosConfig::with_toml(&file)) {
            Ok(Err(e)) if kind(&e) == "unreadable" && sane(&e) => (),
            Ok(Err(e)) => x.bad(format!("with_toml reports a missing file as {}", kind(&e))),
            Ok(Ok(_)) => x.bad("with_toml accepted a missing file".into()),
            Err(_) => x.bad("with_toml panicked on a missing file".into()),
        }
        RunOut { viol: x.viol, hash, facts: x.facts, log: x.log, desc: "random configurations".into(), decided: vec![], evals, more: vec![] }
    })
}
