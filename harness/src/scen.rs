//! Scenarios: what is done to the cluster in one execution. The monitors watch all of them.
use crate::{
    engine::*,
    entry::*,
    profile::{Kind, Profile},
    rng::Rng,
    sim::{Codec, Comp, Net, Sim, SimCfg},
    store::Fault,
};
use omnipaxos::{messages::Message, util::NodeId, CompactionErr};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scen {
    /// Hostile part, then stabilisation, agreement on a leader, progress.
    Chaos,
    /// Only the hostile part (longer for the same cost).
    ChaosOnly,
    /// Exhaustive reads at the end of a hostile part.
    Reads,
    /// Fixed partial connectivity with a quorum-connected server.
    Partial,
    /// Fresh election, stability, requested leadership.
    Elect,
    /// Appends before the first leader exists.
    Early,
    /// Reconfiguration in a stable period and start of the next configuration.
    Reconf,
    /// Trims at the end of a hostile part.
    TrimEnd,
    SnapEnd,
    /// Batching latency in a stable cluster.
    Batch,
    /// Exact periods of heartbeats, resends and flushes.
    Timers,
    /// Two sides with a leader each, late acknowledgements, leadership moving back and forth.
    Split,
    /// The leader keeps links to a write quorum only.
    Kept,
    /// Losses stop but are never announced.
    Silent,
    /// Many short leaderships; in each, every link carries only so many messages.
    Rounds,
    /// Every write of every server of a short history crashes or fails.
    Faults,
    /// The same history with and without serialised messages.
    Twin,
}

pub fn job(p: Profile, scen: Scen) -> RunFn {
    Box::new(move |seed, trace| run_seed(&p, scen, seed, trace))
}
pub fn run_seed(p: &Profile, scen: Scen, seed: u64, trace: bool) -> RunOut {
    let mut r = Rng::new(seed);
    let (kind, mut cfg) = p.gen(&mut r);
    cfg.trace = trace;
    let s = r.next();
    run_kind(kind, cfg, scen, s)
}
pub fn run_kind(kind: Kind, cfg: SimCfg, scen: Scen, s: u64) -> RunOut {
    #[cfg(not(feature = "uc"))]
    match kind {
        Kind::N | Kind::NTrim => run_t::<ValN>(kind, cfg, scen, s),
        _ => run_t::<ValS>(kind, cfg, scen, s),
    }
    #[cfg(feature = "uc")]
    match kind {
        Kind::Lru => run_t::<uc::UcLru>(kind, cfg, scen, s),
        Kind::Lfu => run_t::<uc::UcLfu>(kind, cfg, scen, s),
        Kind::Mix => run_t::<uc::UcMix>(kind, cfg, scen, s),
        _ => run_t::<uc::UcSnap>(kind, cfg, scen, s),
    }
}
fn run_t<T: Val>(kind: Kind, cfg: SimCfg, scen: Scen, s: u64) -> RunOut {
    match scen {
        Scen::Faults => return faults_t::<T>(kind, cfg, s),
        Scen::Twin => return twin_t::<T>(kind, cfg, s),
        _ => (),
    }
    let desc = format!("{:?} {:?} {:?}", scen, kind, cfg);
    let mut sim: Sim<T> = Sim::new(cfg, s);
    sim.boot();
    match scen {
        Scen::Chaos => {
            sim.chaos();
            sim.finish();
        }
        Scen::ChaosOnly => {
            sim.chaos();
        }
        Scen::Reads => {
            sim.chaos();
            sim.all_reads();
        }
        Scen::Partial => sim.partial(),
        Scen::Elect => sim.elect(),
        Scen::Early => sim.early(),
        Scen::Reconf => sim.reconf(),
        Scen::TrimEnd => sim.trim_end(),
        Scen::SnapEnd => sim.snap_end(),
        Scen::Batch => sim.batch_latency(),
        Scen::Timers => sim.timers(),
        Scen::Split => sim.split(),
        Scen::Kept => sim.kept(),
        Scen::Silent => sim.silent(),
        Scen::Rounds => sim.rounds(),
        Scen::Faults | Scen::Twin => unreachable!(),
    }
    sim.end_checks();
    out(sim, desc)
}
fn out<T: Val>(mut sim: Sim<T>, desc: String) -> RunOut {
    let mut facts: Facts = sim.stats.clone();
    for (k, v) in sim.mon.counters() {
        facts.insert(k, v);
    }
    let (mut w, mut r) = (0, 0);
    for n in &sim.nodes {
        w += n.store.i().states_checked;
        r += n.store.i().reads_checked;
    }
    facts.insert("storage writes observed", w);
    facts.insert("storage reads compared", r);
    facts.insert("decided positions", sim.mon.g.len() as u64);
    facts.insert("max decided log", sim.mon.g.len() as u64);
    facts.insert("max permille of the leader bound", sim.mon.max_leader_rounds);
    facts.insert("max permille of the decide bound", sim.mon.max_decide_rounds);
    let hash = sim.hash;
    RunOut {
        viol: std::mem::take(&mut sim.mon.viol),
        hash,
        facts,
        log: std::mem::take(&mut sim.log),
        desc,
        decided: std::mem::take(&mut sim.mon.g),
        ..Default::default()
    }
}

/// Enumerates every storage write of every server of one short history: crash before it, crash
/// after it, write error.
fn faults_t<T: Val>(kind: Kind, cfg: SimCfg, s: u64) -> RunOut {
    let desc = format!("Faults {:?} {:?}", kind, cfg);
    let go = |f: Option<(usize, u64, Fault)>, trace: bool| {
        let mut c = cfg.clone();
        c.fault_at = f;
        c.trace = trace;
        let mut sim: Sim<T> = Sim::new(c, s);
        sim.boot();
        sim.chaos();
        sim.finish();
        sim.end_checks();
        let w: Vec<u64> = sim.nodes.iter().map(|n| n.store.i().writes).collect();
        let fired = sim.nodes.iter().any(|n| n.store.i().fired > 0);
        (out(sim, String::new()), w, fired)
    };
    let (mut base, w, _) = go(None, cfg.trace);
    base.desc = desc.clone();
    base.facts.insert("histories", 1);
    if !base.viol.is_empty() {
        // Broken without any fault: not this property.
        base.viol.clear();
        base.facts.insert("histories broken without a fault", 1);
        return base;
    }
    base.evals = 0;
    let mut total: u64 = 0;
    for (i, wi) in w.iter().enumerate() {
        for k in 1..=*wi {
            for f in [Fault::CrashBefore, Fault::CrashAfter, Fault::Err] {
                let (r, _, fired) = go(Some((i, k, f)), false);
                base.evals += 1;
                if !fired {
                    continue;
                }
                total += 1;
                base.more.push(r.hash);
                *base.facts.entry("storage writes observed").or_insert(0) += r.f("storage writes observed");
                *base.facts.entry("decided positions").or_insert(0) += r.f("decided positions");
                const TAGS: [&str; 13] = ["C01", "C02", "C04", "C05", "C06", "C08", "C09", "C12", "C14", "C17", "C18", "C19", "C26"];
                if let Some(v) = r.viol.into_iter().find(|v| TAGS.contains(&v.prop)) {
                    if base.viol.is_empty() {
                        if cfg.trace {
                            base.log = go(Some((i, k, f)), true).0.log;
                        }
                        base.desc = format!("{} fault {:?} at write {} of server {}", desc, f, k, cfg.pids[i]);
                        base.viol.push(crate::monitor::Violation {
                            prop: "C19",
                            step: v.step,
                            msg: format!("{:?} at write {} of server {}: [{}] {}", f, k, cfg.pids[i], v.prop, v.msg),
                        });
                    }
                    return base;
                }
            }
        }
    }
    base.facts.insert("fault points fired", total);
    base
}

fn twin_t<T: Val>(kind: Kind, cfg: SimCfg, s: u64) -> RunOut {
    let go = |codec: Codec, trace: bool| {
        let mut c = cfg.clone();
        c.codec = codec;
        c.trace = trace;
        let desc = format!("Twin {:?} {:?}", kind, c);
        let mut sim: Sim<T> = Sim::new(c, s);
        sim.boot();
        sim.chaos();
        sim.finish();
        out(sim, desc)
    };
    let a = go(Codec::None, cfg.trace);
    let which = if s % 2 == 0 { Codec::Bincode } else { Codec::Json };
    let mut b = go(which, cfg.trace);
    if b.viol.iter().all(|v| v.prop != "C23") && (a.hash != b.hash || a.decided != b.decided) {
        b.viol.push(crate::monitor::Violation {
            prop: "C23",
            step: 0,
            msg: format!(
                "with messages serialised by {:?} the same history went differently: {} instead of {} decided positions",
                which,
                b.decided.len(),
                a.decided.len()
            ),
        });
        b.log.push("--- in memory ---".into());
        b.log.extend(a.log);
    }
    b
}

impl<T: Val> Sim<T> {
    pub fn all_reads(&mut self) {
        for i in 0..self.cfg.n() {
            if self.nodes[i].op.is_none() {
                self.nodes[i].store.m().fault = None;
                self.restart(i);
            }
            let ver = self.nodes[i].store.i().version;
            let total = self.nodes[i].store.i().sh.accepted();
            let top = total + 2;
            let step = 1 + top / 24;
            let mut a = 0;
            while a <= top {
                let mut b = a;
                while b <= top {
                    for kind in [2, 4, 6, 9] {
                        self.one_read(i, a, b, kind, false);
                    }
                    b += step;
                }
                for kind in [0, 3, 5, 7] {
                    self.one_read(i, a, a, kind, false);
                }
                a += step;
            }
            if self.nodes[i].store.i().version != ver {
                self.viol("C16", format!("reading changed the storage of server {}", i));
            }
        }
    }
    /// C09: messages were lost and nobody was told. Traffic from the leader must reveal it.
    pub fn silent(&mut self) {
        let n = self.cfg.n();
        if self.rng.chance(50) {
            self.chaos();
            self.stabilize_as(false);
        } else {
            self.stabilize();
        }
        if self.agree("C09").is_none() {
            return;
        }
        // A settled cluster that loses messages now and then.
        let lose = *self.rng.pick(&[5u32, 20, 50]);
        let stay = self.rng.chance(70);
        let mut lost = 0;
        for _ in 0..self.rng.range(10, 150) {
            match self.rng.below(10) {
                0 => {
                    if let Some(i) = self.some_node() {
                        self.append(i);
                    }
                }
                1 => {
                    if let Some(i) = self.some_node() {
                        self.tick(i);
                    }
                }
                2 | 3 => {
                    let i = self.rng.below(n);
                    self.send(i);
                }
                _ => {
                    let links: Vec<(usize, usize)> =
                        (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| !self.q[*i][*j].is_empty()).collect();
                    if links.is_empty() {
                        continue;
                    }
                    let (i, j) = *self.rng.pick(&links);
                    let ble = matches!(self.q[i][j].front(), Some(Message::BLE(_)));
                    if !(stay && ble) && self.rng.chance(lose) {
                        let m = self.q[i][j].pop_front().unwrap();
                        self.t(|| format!("lose {}->{} {}", i, j, crate::monitor::brief(&m)));
                        lost += 1;
                    } else {
                        self.deliver(i, j);
                    }
                }
            }
        }
        // The last messages of all: nothing follows that could reveal their loss.
        if let Some((l, _)) = self.agreed_leader() {
            self.drain();
            for _ in 0..self.rng.range(1, 3) {
                self.append(l);
                for _ in 0..2 {
                    for i in 0..n {
                        self.send(i);
                        for j in 0..n {
                            while let Some(m) = self.q[i][j].front() {
                                if !matches!(m, Message::BLE(_)) && self.rng.chance(40) {
                                    self.q[i][j].pop_front();
                                    lost += 1;
                                } else {
                                    self.deliver(i, j);
                                }
                            }
                        }
                    }
                }
            }
        }
        self.add("silent losses", lost);
        let Some((l, _)) = self.agree("C09") else {
            return;
        };
        if self.nodes[l].store.i().sh.stopsign.is_some() {
            return;
        }
        let acc = self.nodes[l].store.i().sh.accepted();
        let behind = self.nodes.iter().any(|n| n.op.as_ref().map(|o| o.get_decided_idx() < acc).unwrap_or(true));
        let b = self.cfg.bound_decide();
        let times = self.rng.range(1, 3);
        for _ in 0..times {
            self.append(l);
            for _ in 0..b {
                if !self.round() {
                    self.viol("C09", "servers exchange messages for ever in a stable period".into());
                    return;
                }
            }
        }
        let want = self.nodes[l].store.i().sh.accepted();
        let dec: Vec<usize> = self.nodes.iter().map(|n| n.op.as_ref().map(|o| o.get_decided_idx()).unwrap_or(0)).collect();
        if dec.iter().any(|d| *d < want) {
            self.viol(
                "C09",
                format!(
                    "messages were lost unannounced; the leader has {} positions, {} appends and {} ticks later the servers decided {:?}",
                    want,
                    times,
                    times * b,
                    dec
                ),
            );
        }
        self.bump("unannounced losses made good");
        if behind {
            self.bump("servers behind without notice");
        }
    }
    /// Leadership moves on purpose. In each leadership every directed link carries a random number
    /// of messages and then stalls or breaks, so that servers see arbitrary prefixes of what was sent.
    pub fn rounds(&mut self) {
        let n = self.cfg.n();
        let (rq, wq) = (self.cfg.r(), self.cfg.w());
        let mut last = n;
        for _ in 0..self.rng.range(3, 12) {
            if self.storm {
                return;
            }
            if self.cfg.crashes && self.rng.chance(25) {
                let i = self.rng.below(n);
                self.crash(i);
            }
            for i in 0..n {
                if self.nodes[i].op.is_none() && self.rng.chance(60) {
                    self.nodes[i].store.m().fault = None;
                    self.restart(i);
                }
            }
            let live = self.alive();
            if live.is_empty() {
                continue;
            }
            let mut l = *self.rng.pick(&live);
            if l == last && self.rng.chance(60) {
                l = *self.rng.pick(&live);
            }
            last = l;
            // Who takes part.
            let mut order: Vec<usize> = (0..n).filter(|i| *i != l).collect();
            self.rng.shuffle(&mut order);
            let k = match self.rng.below(4) {
                0 => n - 1,
                1 => wq - 1,
                2 => rq - 1,
                _ => self.rng.below(n),
            };
            let mut part = vec![false; n];
            part[l] = true;
            for i in order.iter().take(k) {
                part[*i] = true;
            }
            for i in 0..n {
                for j in 0..i {
                    if part[i] && part[j] {
                        self.heal(i, j);
                    } else if part[i] != part[j] && self.rng.chance(70) {
                        self.cut(i, j);
                    }
                }
            }
            if self.rng.chance(70) {
                self.flush_pending();
            }
            // It asks for leadership until its round is the highest among them.
            let top = (0..n).filter(|i| part[*i]).filter_map(|i| self.nodes[i].op.as_ref().map(|o| o.get_promise().n)).max().unwrap_or(0);
            for _ in 0..8 {
                let Some(op) = self.nodes[l].op.as_ref() else { break };
                let p = op.get_promise();
                if p.pid == self.cfg.pids[l] && p.n > top {
                    break;
                }
                self.t(|| format!("try_become_leader {}", l));
                self.call(l, |op| op.try_become_leader());
                self.observe(l);
            }
            self.bump("leaderships asked for");
            let mut budget: Vec<Vec<usize>> = vec![vec![usize::MAX; n]; n];
            for i in 0..n {
                for j in 0..n {
                    if self.rng.chance(40) {
                        budget[i][j] = self.rng.below(7);
                    }
                }
            }
            for _ in 0..self.rng.range(5, 40) {
                match self.rng.below(20) {
                    0..=2 => {
                        let i = if self.rng.chance(80) { l } else { self.rng.below(n) };
                        for _ in 0..self.rng.range(1, 3) {
                            self.append(i);
                        }
                    }
                    3 => {
                        let i = self.rng.below(n);
                        for _ in 0..self.cfg.flush {
                            self.tick(i);
                        }
                    }
                    4 if self.cfg.comp != Comp::None => {
                        let i = if self.rng.chance(50) { l } else { self.rng.below(n) };
                        self.compact(i);
                    }
                    5 if self.cfg.reconfig && self.rng.chance(20) => {
                        let i = self.rng.below(n);
                        self.reconfigure(i, false);
                    }
                    _ => {
                        for i in 0..n {
                            if self.rng.chance(60) {
                                self.send(i);
                            }
                        }
                        let links: Vec<(usize, usize)> = (0..n)
                            .flat_map(|i| (0..n).map(move |j| (i, j)))
                            .filter(|(i, j)| !self.q[*i][*j].is_empty() && budget[*i][*j] > 0)
                            .collect();
                        for (i, j) in links {
                            if self.rng.chance(60) {
                                let b = budget[i][j].min(self.rng.range(1, 3));
                                for _ in 0..b {
                                    if !matches!(self.q[i][j].front(), Some(Message::BLE(_))) && budget[i][j] != usize::MAX {
                                        budget[i][j] = budget[i][j].saturating_sub(1);
                                    }
                                    if !self.deliver(i, j) {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            for i in 0..n {
                for j in 0..n {
                    if budget[i][j] == 0 && self.rng.chance(60) {
                        self.cut(i, j);
                    }
                }
            }
        }
        self.finish();
    }
    /// C10.
    pub fn partial(&mut self) {
        let n = self.cfg.n();
        if self.rng.chance(60) {
            self.chaos();
        }
        self.stabilize();
        let settled = self.rng.chance(70);
        if settled && self.agree("C09").is_none() {
            return;
        }
        let old = self.agreed_leader().map(|l| l.0);
        // The hub keeps links to a read quorum (itself included), or it is the established leader
        // and keeps links to a write quorum.
        let (rq, wq) = (self.cfg.r(), self.cfg.w());
        let keep = settled && self.cfg.fq.is_some() && old.is_some() && self.rng.chance(40);
        let mut order: Vec<usize> = (0..n).collect();
        self.rng.shuffle(&mut order);
        if let Some(l) = old {
            // Usually not the old leader, so that leadership has to move.
            if order[0] == l && self.rng.chance(80) {
                order.swap(0, 1);
            }
            if keep {
                let p = order.iter().position(|x| *x == l).unwrap();
                order.swap(0, p);
            }
        }
        let hub = order[0];
        let deg = self.rng.range(if keep { wq } else { rq } - 1, n - 1);
        let mut nb: Vec<usize> = order[1..].to_vec();
        if let Some(l) = old {
            // Constrained election / quorum loss: the hub often loses the old leader.
            if self.rng.chance(50) {
                nb.retain(|x| *x != l);
                nb.push(l);
            }
        }
        let mut g = vec![vec![false; n]; n];
        for x in nb.iter().take(deg) {
            g[hub][*x] = true;
            g[*x][hub] = true;
        }
        match self.rng.below(3) {
            0 => (), // star: quorum-loss
            1 => {
                // chain through the hub
                for w in nb.windows(2) {
                    if self.rng.chance(60) {
                        g[w[0]][w[1]] = true;
                        g[w[1]][w[0]] = true;
                    }
                }
            }
            _ => {
                let pc = *self.rng.pick(&[20, 50, 80]);
                for i in 0..n {
                    for j in 0..i {
                        if i != hub && j != hub && self.rng.chance(pc) {
                            g[i][j] = true;
                            g[j][i] = true;
                        }
                    }
                }
            }
        }
        for i in 0..n {
            for j in 0..i {
                if !g[i][j] {
                    self.cut(i, j);
                }
            }
        }
        self.flush_pending();
        let qc: Vec<usize> = (0..n).filter(|i| g[*i].iter().filter(|x| **x).count() + 1 >= wq).collect();
        if keep && deg + 1 < rq {
            self.bump("partial connectivity: leader with a write quorum only");
        }
        self.t(|| format!("--- fixed connectivity, quorum-connected {:?} ---", qc));
        self.add("servers outside the quorum-connected set", (n - qc.len()) as u64);
        let bound = 4 * self.cfg.bound_leader();
        let mut k = 0;
        let mut tried = 0;
        let settle = self.rng.below(6 * self.cfg.election as usize + 1);
        while k < bound {
            if !self.round() {
                self.viol("C10", "servers exchange messages for ever".into());
                return;
            }
            k += 1;
            if k < settle {
                continue;
            }
            let lead: Vec<usize> = qc
                .iter()
                .copied()
                .filter(|i| {
                    self.nodes[*i].op.as_ref().map(|o| o.get_current_leader() == Some((self.nodes[*i].pid, true))).unwrap_or(false)
                })
                .collect();
            for l in lead {
                let sealed = self.nodes[l].store.i().sh.stopsign.is_some();
                let id = if sealed { None } else { self.append(l) };
                let want = self.nodes[l].store.i().sh.accepted();
                tried += 1;
                let b2 = self.cfg.bound_decide();
                for _ in 0..b2 {
                    let dec = |i: usize| self.nodes[i].op.as_ref().map(|o| o.get_decided_idx()).unwrap_or(0);
                    let goal = match id {
                        None => want,
                        Some(x) => self.mon.g_pos.get(&x).map(|p| p + 1).unwrap_or(usize::MAX),
                    };
                    let have = (0..n).filter(|i| dec(*i) >= goal).count();
                    if dec(l) >= goal && have >= wq {
                        self.bump("partial connectivity: progress");
                        if old.is_some() && Some(l) != old {
                            self.bump("partial connectivity: leadership moved");
                        }
                        self.mon.max_leader_rounds = self.mon.max_leader_rounds.max(k as u64 * 1000 / bound as u64);
                        return;
                    }
                    self.round();
                    k += 1;
                }
            }
        }
        let st: Vec<String> = self
            .nodes
            .iter()
            .map(|n| match &n.op {
                Some(o) => format!("{}:{:?}/{:?} dec {}", n.pid, o.get_current_leader(), o.get_promise().n, o.get_decided_idx()),
                None => format!("{}:down", n.pid),
            })
            .collect();
        self.viol(
            "C10",
            format!("no progress within {} ticks ({} attempts) with quorum-connected servers {:?}: {}", bound, tried, qc, st.join(" ")),
        );
    }
    /// C11 (and C25 for the status at rest).
    pub fn elect(&mut self) {
        let n = self.cfg.n();
        let fresh = self.rng.chance(60);
        if fresh {
            if self.rng.chance(30) {
                // Priorities raised at run time, before anyone has heard of the configured ones.
                for i in 0..n {
                    if self.rng.chance(40) {
                        let p = self.cfg.prio[i].saturating_add(self.rng.below(4) as u32);
                        self.t(|| format!("set_priority {} {}", i, p));
                        self.call(i, |op| op.set_priority(p));
                        self.cfg.prio[i] = p;
                        self.bump("priorities raised at run time");
                    }
                }
            }
            self.drain();
            let Some((l, _)) = self.agree("C11") else {
                return;
            };
            let best = (0..n).max_by_key(|i| (self.cfg.prio[*i], self.cfg.pids[*i])).unwrap();
            self.bump("fresh elections");
            if l != best {
                let m = format!(
                    "fresh cluster elected {} (priority {}) instead of {} (priority {})",
                    self.cfg.pids[l], self.cfg.prio[l], self.cfg.pids[best], self.cfg.prio[best]
                );
                self.viol("C11", m);
            }
        } else {
            self.chaos();
            self.stabilize();
            if self.agree("C09").is_none() {
                return;
            }
        }
        for _ in 0..self.rng.range(1, 3) {
            self.stability();
            if self.agreed_leader().is_none() || !self.rng.chance(80) {
                break;
            }
            // A request to lead.
            let i = self.rng.below(n);
            self.t(|| format!("try_become_leader {}", i));
            self.call(i, |op| op.try_become_leader());
            self.observe(i);
            self.bump("requests to lead");
            let b = self.cfg.bound_leader();
            let mut k = 0;
            while k < b && self.agreed_leader().map(|l| l.0) != Some(i) {
                self.round();
                k += 1;
            }
            if self.agreed_leader().map(|l| l.0) != Some(i) {
                let m = format!("server {} asked to lead a connected cluster but does not within {} ticks", self.cfg.pids[i], b);
                self.viol("C11", m);
                return;
            }
            // It keeps the lead.
            if self.agree("C11").map(|l| l.0) != Some(i) {
                let m = format!("server {} asked to lead but did not keep the lead", self.cfg.pids[i]);
                self.viol("C11", m);
                return;
            }
        }
    }
    fn stability(&mut self) {
        let Some((l, bal)) = self.agreed_leader() else {
            return;
        };
        let n = self.cfg.n();
        let rounds = self.rng.range(10, 30) as u64 * self.cfg.election;
        for _ in 0..rounds {
            if self.rng.chance(20) {
                let i = self.rng.below(n);
                self.append(i);
            }
            if self.rng.chance(3) && self.cfg.comp == Comp::Trim {
                self.trim(l, None);
            }
            if self.rng.chance(3) && self.cfg.comp == Comp::Snap {
                let i = self.rng.below(n);
                let lo = self.rng.chance(50);
                self.snapshot(i, None, lo);
            }
            if self.cfg.reconfig && self.rng.chance(1) {
                let i = self.rng.below(n);
                self.reconfigure(i, false);
            }
            self.round();
            for i in 0..n {
                let Some(op) = self.nodes[i].op.as_ref() else {
                    continue;
                };
                let (gl, gp) = (op.get_current_leader(), op.get_promise());
                if gl != Some((self.cfg.pids[l], true)) || gp != bal {
                    let m = format!("stable leader {:?} was replaced at server {} by {:?} ({:?})", bal, self.cfg.pids[i], gl, gp);
                    self.viol("C11", m);
                    return;
                }
            }
        }
        self.bump("stable periods");
        self.add("stable period ticks", rounds);
    }
    /// C11: an established leader with a write quorum stays, whatever links the others have.
    pub fn kept(&mut self) {
        let n = self.cfg.n();
        if self.rng.chance(50) {
            self.chaos();
        }
        self.stabilize();
        let Some((l, bal)) = self.agree("C09") else {
            return;
        };
        let mut others: Vec<usize> = (0..n).filter(|i| *i != l).collect();
        self.rng.shuffle(&mut others);
        let deg = self.rng.range(self.cfg.w() - 1, n - 1);
        let pc = *self.rng.pick(&[0, 40, 80, 100]);
        for (k, i) in others.iter().enumerate() {
            if k >= deg {
                self.cut(l, *i);
            }
            for j in &others[..k] {
                if !self.rng.chance(pc) {
                    self.cut(*i, *j);
                }
            }
        }
        self.flush_pending();
        if deg < n - 1 {
            self.bump("leaders with lost links");
        }
        self.t(|| format!("--- leader {} keeps {} links ---", l, deg));
        // Servers that the leader does not need may come and go.
        let spare: Vec<usize> = others[self.cfg.w() - 1..].to_vec();
        let restless = self.cfg.crashes && !spare.is_empty();
        let rounds = self.rng.range(6, 15) as u64 * self.cfg.election;
        for _ in 0..rounds {
            if self.rng.chance(20) {
                self.append(l);
            }
            if restless && self.rng.chance(10) {
                let i = *self.rng.pick(&spare);
                match self.nodes[i].op {
                    Some(_) => self.crash(i),
                    None => {
                        self.restart(i);
                        self.flush_pending();
                    }
                }
                self.bump("restarts under a kept leader");
            }
            self.round();
            for i in 0..n {
                let Some(op) = self.nodes[i].op.as_ref() else {
                    continue;
                };
                let (gl, gp) = (op.get_current_leader(), op.get_promise());
                if gp != bal || (i == l && gl != Some((self.cfg.pids[l], true))) {
                    let m = format!("leader {:?}, connected to a write quorum, was replaced at server {} by {:?} ({:?})", bal, self.cfg.pids[i], gl, gp);
                    self.viol("C11", m);
                    return;
                }
            }
        }
        self.bump("stable periods");
    }
    /// Rounds during which some links are delayed.
    fn some_rounds(&mut self, lo: usize, hi: usize) {
        for _ in 0..self.rng.range(lo, hi) {
            self.round();
        }
    }
    /// The old leader and a minority on one side, a new leader on the other; acknowledgements of the
    /// old round arrive late, in the middle of later rounds of the same leader.
    pub fn split(&mut self) {
        let n = self.cfg.n();
        let el = self.cfg.election as usize;
        if self.rng.chance(20) {
            self.chaos();
        }
        self.stabilize();
        let Some((l, _)) = self.agree("C09") else {
            return;
        };
        for _ in 0..self.rng.below(3) {
            self.append(l);
            self.round();
        }
        let mut rest: Vec<usize> = (0..n).filter(|i| *i != l).collect();
        for _ in 0..self.rng.range(1, 3) {
            self.rng.shuffle(&mut rest);
            // Side a: the leader and fewer others than it needs.
            let k = self.rng.range(1, self.cfg.w().max(2) - 1).min(n - 2).max(1);
            let a: Vec<usize> = rest[..k.min(rest.len())].to_vec();
            let b: Vec<usize> = rest[k.min(rest.len())..].to_vec();
            for i in &b {
                self.cut(l, *i);
                for j in &a {
                    if self.rng.chance(85) {
                        self.cut(*i, *j);
                    }
                }
            }
            for i in &a {
                self.slow[*i][l] = self.rng.chance(70);
            }
            for _ in 0..self.rng.range(1, 4) {
                self.append(l);
            }
            // Long enough for the acknowledgements to be on their way, perhaps for a new leader.
            self.some_rounds(1, 2);
            let long = self.rng.chance(70);
            if long {
                self.some_rounds(2 * el, 6 * el + 4);
            }
            let nl = b.iter().copied().find(|i| self.nodes[*i].op.as_ref().map(|o| o.get_current_leader() == Some((self.cfg.pids[*i], true))).unwrap_or(false));
            if let Some(x) = nl {
                self.bump("two leaders at a time");
                // Its entries reach few servers.
                for i in &b {
                    if *i != x && self.rng.chance(60) {
                        self.slow[x][*i] = true;
                    }
                }
                for _ in 0..self.rng.range(0, 5) {
                    self.append(x);
                }
                self.some_rounds(0, 2);
            }
            // The old leader reaches some of the other side again.
            for i in &b {
                if self.rng.chance(70) {
                    self.heal(l, *i);
                }
            }
            self.flush_pending();
            self.some_rounds(0, 2 * el + 2);
            if self.rng.chance(80) {
                let i = if self.rng.chance(80) { l } else { self.rng.below(n) };
                self.t(|| format!("try_become_leader {}", i));
                self.call(i, |op| op.try_become_leader());
                self.observe(i);
                self.some_rounds(0, 3);
            }
            if self.rng.chance(40) {
                let i = *self.rng.pick(&b);
                self.cut(l, i);
            }
            if self.rng.chance(60) {
                self.append(l);
                self.some_rounds(0, 2);
            }
            // The late messages arrive, a few at a time.
            for i in a {
                for _ in 0..self.rng.range(0, 6) {
                    self.deliver(i, l);
                }
                self.slow[i][l] = self.rng.chance(30);
                self.some_rounds(0, 2);
            }
            self.slow_links(0);
            self.some_rounds(0, el);
            if self.rng.chance(50) {
                for i in 0..n {
                    for j in 0..i {
                        self.heal(i, j);
                    }
                }
                self.flush_pending();
                self.some_rounds(0, 3 * el);
            }
        }
        self.finish();
    }
    /// C09: entries appended to a new, connected cluster before it has a leader.
    pub fn early(&mut self) {
        let n = self.cfg.n();
        let mut ids = vec![];
        // The first heartbeats pass before the first timeout: no servers compete.
        self.drain();
        for _ in 0..self.rng.range(1, 12) {
            let i = self.rng.below(n);
            if let Some(id) = self.append(i) {
                ids.push(id);
            }
            if self.rng.chance(30) {
                self.send(i);
            }
        }
        let Some(_) = self.agree("C09") else {
            return;
        };
        let b = self.cfg.bound_decide();
        let mut k = 0;
        while k < b && !ids.iter().all(|x| self.mon.g_pos.contains_key(x)) {
            self.round();
            k += 1;
        }
        self.add("early appends", ids.len() as u64);
        for x in ids {
            if !self.mon.g_pos.contains_key(&x) {
                self.viol("C09", format!("entry {} appended before the first leader was not decided within {} ticks of one", x, b));
                return;
            }
        }
        self.finish();
    }
    /// C13: accepted reconfigurations get decided; the next configuration starts.
    pub fn reconf(&mut self) {
        let n = self.cfg.n();
        let fresh = self.rng.chance(25);
        if !fresh {
            if self.rng.chance(70) {
                self.chaos();
            }
            self.stabilize();
            if self.agree("C09").is_none() {
                return;
            }
            if self.rng.chance(30) {
                // A restarted server (an ex-leader, maybe) takes the request.
                let i = self.rng.below(n);
                self.crash(i);
                self.restart(i);
                self.flush_pending();
                if self.cfg.net == Net::Lossy {
                    self.stabilize();
                }
                if self.rng.chance(70) && self.agree("C09").is_none() {
                    return;
                }
            }
        }
        // Servers that may take the requests. Perhaps a change of leader is under way; a request at a server
        // that already follows the new one must not get lost.
        let mut who: Vec<usize> = (0..n).collect();
        let mut under_way = None;
        if !fresh && self.agreed_leader().is_some() && self.rng.chance(30) {
            let x = self.rng.below(n);
            self.call(x, |op| op.try_become_leader());
            self.observe(x);
            self.send(x);
            for j in 0..n {
                if j != x && self.rng.chance(50) {
                    while self.deliver(x, j) {}
                    self.send(j);
                }
            }
            let bal = self.nodes[x].op.as_ref().map(|o| o.get_promise());
            who.retain(|i| self.nodes[*i].op.as_ref().map(|o| o.get_promise()) == bal);
            under_way = bal;
            self.bump("requests during a change of leader");
        }
        let mut accepted = 0;
        for _ in 0..*self.rng.pick(&[1, 1, 2, 3]) {
            let i = *self.rng.pick(&who);
            if self.rng.chance(40) {
                self.append(i);
            }
            if self.reconfigure(i, false).is_some() {
                accepted += 1;
            }
            if self.rng.chance(30) {
                self.send(i);
            }
            if self.rng.chance(30) {
                self.append(i);
            }
        }
        let already = self.nodes.iter().any(|x| x.store.i().sh.stopsign.is_some());
        if accepted == 0 && !already {
            return;
        }
        if fresh || self.agreed_leader().is_none() {
            if self.agree("C09").is_none() {
                return;
            }
        }
        if let Some(b) = under_way {
            if self.nodes.iter().any(|x| x.op.as_ref().map(|o| o.get_promise()) != Some(b)) && self.agree("C09").is_none() {
                return;
            }
            if self.nodes.iter().any(|x| x.op.as_ref().map(|o| o.get_promise()) != Some(b)) {
                // Another leader after all.
                return;
            }
        }
        // The marker and its decision get lost without notice now and then; the leader resends them.
        if self.agreed_leader().is_some() && self.rng.chance(50) {
            let p = *self.rng.pick(&[20, 50, 80]);
            let rounds = self.rng.range(1, 3 * self.cfg.resend as usize);
            for _ in 0..rounds {
                for i in 0..n {
                    self.tick(i);
                }
                for _ in 0..4 {
                    for i in 0..n {
                        self.send(i);
                        for j in 0..n {
                            while let Some(m) = self.q[i][j].front() {
                                let k = crate::sim::msg_kind(m);
                                let sealed = self.nodes[i].store.i().sh.stopsign.is_some();
                                if sealed && matches!(k, "AcceptStopSign" | "Decide") && self.rng.chance(p) {
                                    self.t(|| format!("lose {}->{} {}", i, j, k));
                                    self.q[i][j].pop_front();
                                    self.bump("silent losses of markers and their decisions");
                                } else {
                                    self.deliver(i, j);
                                }
                            }
                        }
                    }
                }
            }
        }
        let b = self.cfg.bound_decide() + self.cfg.bound_leader();
        let mut k = 0;
        let done = |s: &Self| s.nodes.iter().all(|x| x.op.as_ref().map(|o| o.is_reconfigured().is_some()).unwrap_or(false));
        while k < b && !done(self) {
            self.round();
            k += 1;
        }
        if !done(self) {
            let st: Vec<String> = self
                .nodes
                .iter()
                .map(|x| x.op.as_ref().map(|o| format!("{}:{}", x.pid, o.is_reconfigured().is_some())).unwrap_or("down".into()))
                .collect();
            self.viol("C13", format!("a reconfiguration accepted in a stable period is not decided and reported by all within {} ticks: {}", b, st.join(" ")));
            return;
        }
        self.bump("reconfigurations decided in stable periods");
        // Any further request is refused (checked by the admission monitor).
        for i in 0..n {
            self.append(i);
            self.reconfigure(i, false);
        }
        // The next configuration.
        let next = self.nodes[0].op.as_ref().and_then(|o| o.is_reconfigured()).unwrap().next_config;
        let mut c = self.cfg.clone();
        c.config_id = next.configuration_id;
        c.pids = next.nodes.clone();
        c.fq = next.flexible_quorum.map(|f| (f.read_quorum_size, f.write_quorum_size));
        let m = c.pids.len();
        c.prio = vec![0; m];
        c.batch = vec![self.cfg.batch[0]; m];
        c.steps = 60;
        c.fault_at = None;
        let s2 = self.rng.next();
        let mut sim2: Sim<T> = Sim::new(c, s2);
        sim2.next_id = self.next_id;
        sim2.via = self.rng.chance(50) as u8;
        sim2.boot();
        if self.rng.chance(40) {
            sim2.chaos();
        }
        let ok = sim2.finish();
        sim2.end_checks();
        self.add("next configurations started", 1);
        if !ok {
            let why = sim2.mon.viol.iter().map(|v| format!("[{}] {}", v.prop, v.msg)).collect::<Vec<_>>().join("; ");
            self.viol("C13", format!("the next configuration {:?} does not make progress: {}", next, why));
        }
        self.h(sim2.hash);
        let log = std::mem::take(&mut sim2.log);
        self.log.push("--- next configuration ---".into());
        self.log.extend(log);
    }
    /// C14: a cluster-wide snapshot is taken by everyone, a local one by one server only.
    pub fn snap_end(&mut self) {
        self.chaos();
        if !self.finish() {
            return;
        }
        let n = self.cfg.n();
        for _ in 0..(2 * self.cfg.flush + 2) {
            self.round();
        }
        for _ in 0..self.rng.range(2, 6) {
            let i = self.rng.below(n);
            let local = self.rng.below(3) == 0;
            let before: Vec<(usize, usize)> = (0..n).map(|j| (self.nodes[j].store.i().sh.compacted, self.nodes[j].store.i().sh.decided)).collect();
            let (comp, dec) = before[i];
            if before.iter().any(|b| b.1 != dec) {
                return;
            }
            let ssd = self.nodes[i].op.as_ref().map(|o| o.is_reconfigured().is_some()).unwrap_or(false) as usize;
            let idx = match self.rng.below(4) {
                0 => None,
                1 => Some(dec),
                2 => Some(dec + 1 + self.rng.below(3)),
                _ => Some(self.rng.range(comp.min(dec), dec)),
            };
            self.snapshot(i, idx, local);
            if self.nodes[i].op.is_none() {
                return;
            }
            self.round();
            self.round();
            let target = match idx {
                Some(x) if x > dec => 0,
                Some(x) => x.min(dec - ssd),
                None => dec - ssd,
            };
            for j in 0..n {
                let got = self.nodes[j].store.i().sh.compacted;
                let want = if j == i || !local { before[j].0.max(target) } else { before[j].0 };
                if got != want {
                    let m = format!(
                        "snapshot({:?}, local_only {}) at server {} in a stable cluster took server {} from compacted index {} to {} instead of {} (decided {})",
                        idx, local, self.cfg.pids[i], self.cfg.pids[j], before[j].0, got, want, dec
                    );
                    self.viol("C14", m);
                    return;
                }
            }
            if target > 0 {
                self.bump(if local { "local snapshots left to one server" } else { "snapshots taken by all" });
            } else {
                self.bump("refused snapshots left all alone");
            }
            for _ in 0..self.rng.below(6) {
                let i = self.rng.below(n);
                self.append(i);
            }
            // A request while some servers still have to learn what others have decided: everyone takes what it
            // knows to be decided.
            for _ in 0..self.rng.below(40) {
                let (a, b) = (self.rng.below(n), self.rng.below(n));
                if a != b {
                    self.send(a);
                    self.deliver(a, b);
                }
            }
            let known: Vec<usize> = (0..n)
                .map(|j| self.nodes[j].store.i().sh.decided - self.nodes[j].op.as_ref().map(|o| o.is_reconfigured().is_some()).unwrap_or(false) as usize)
                .collect();
            let i = self.rng.below(n);
            let all = *known.iter().min().unwrap();
            let idx = if self.rng.chance(70) { None } else { Some(all) };
            self.snapshot(i, idx, false);
            self.round();
            self.round();
            if self.nodes.iter().any(|x| x.op.is_none()) {
                return;
            }
            for j in 0..n {
                let got = self.nodes[j].store.i().sh.compacted;
                let want = if idx.is_none() { known[j] } else { all };
                if got < want {
                    let m = format!(
                        "snapshot({:?}, local_only false) at server {} (decided {}) in a stable cluster left server {}, which had decided {}, at compacted index {}",
                        idx, self.cfg.pids[i], known[i], self.cfg.pids[j], known[j], got
                    );
                    self.viol("C14", m);
                    return;
                }
            }
            if known.iter().any(|k| *k < known[i]) {
                self.bump("snapshots requested ahead of other servers");
            }
            for _ in 0..self.cfg.bound_decide() {
                self.round();
            }
        }
        let i = self.rng.below(n);
        self.crash(i);
        self.finish();
    }
    /// C15: trims do succeed, and refusals are right.
    pub fn trim_end(&mut self) {
        self.chaos();
        if !self.finish() {
            return;
        }
        let n = self.cfg.n();
        let Some((l, _)) = self.agreed_leader() else {
            return;
        };
        let ssd = |s: &Self, i: usize| s.nodes[i].op.as_ref().map(|o| o.is_reconfigured().is_some()).unwrap_or(false) as usize;
        // Let the batched acknowledgements reach the leader.
        for _ in 0..(2 * self.cfg.flush + 2) {
            self.round();
        }
        for _ in 0..self.rng.range(1, 4) {
            let dec = self.nodes[l].store.i().sh.decided;
            let comp = self.nodes[l].store.i().sh.compacted;
            // Not at a follower, not beyond what is decided.
            let f = self.rng.below(n);
            if f != l {
                let r = self.call(f, |op| op.trim(Some(dec)));
                self.bump("trims at followers");
                match r {
                    Some(Err(CompactionErr::NotCurrentLeader(x))) if x == self.cfg.pids[l] => (),
                    r => self.viol("C15", format!("trim at a follower answered {:?}", r)),
                }
                self.observe(f);
            }
            let beyond = dec + 1 + self.rng.below(3);
            self.trim(l, Some(beyond));
            let to = match self.rng.below(3) {
                0 => None,
                1 => Some(dec),
                _ => Some(self.rng.range(comp.min(dec), dec)),
            };
            match self.trim(l, to) {
                Some(true) => (),
                r => {
                    self.viol("C15", format!("trim({:?}) at the leader answered {:?} although all servers stored all {} decided positions", to, r, dec));
                    return;
                }
            }
            self.round();
            self.round();
            let want = to.unwrap_or(dec).min(dec - ssd(self, l)).max(comp);
            for i in 0..n {
                let c = self.nodes[i].store.i().sh.compacted;
                if c < want {
                    let m = format!("trim({:?}) succeeded but server {} stays at compacted index {}, expected {}", to, self.cfg.pids[i], c, want);
                    self.viol("C15", m);
                    return;
                }
            }
            self.bump("trims applied by all");
            for _ in 0..self.rng.below(6) {
                let i = self.rng.below(n);
                self.append(i);
            }
            for _ in 0..self.cfg.bound_decide() {
                self.round();
            }
        }
        // The sequence goes on, also on a restarted server.
        let i = self.rng.below(n);
        self.crash(i);
        self.finish();
    }
    /// C24, second half: latency of batched entries.
    pub fn batch_latency(&mut self) {
        let n = self.cfg.n();
        // Different clock phases.
        for i in 0..n {
            for _ in 0..self.rng.below(self.cfg.flush as usize + 1) {
                self.tick(i);
            }
        }
        let Some((l, _)) = self.agree("C09") else {
            return;
        };
        let f = self.cfg.flush as usize;
        let equal = self.cfg.batch.iter().all(|b| *b == self.cfg.batch[0]);
        for _ in 0..self.rng.range(2, 6) {
            for _ in 0..2 * f + 2 {
                self.round();
            }
            let before = self.mon.g.len();
            let mut ids = vec![];
            let full = equal && self.rng.chance(40);
            let k = if full { self.cfg.batch[0] * self.rng.range(1, 3) } else { self.rng.range(1, 2 * self.cfg.batch[l] + 2) };
            // Some followers are cut off on the way. The leader keeps a write quorum.
            let mut gone: Vec<usize> = vec![];
            let spare = n - self.cfg.w().max(n - n / 2);
            if !full && spare > 0 && self.rng.chance(50) {
                let mut o: Vec<usize> = (0..n).filter(|i| *i != l).collect();
                self.rng.shuffle(&mut o);
                gone = o[..self.rng.range(1, spare)].to_vec();
            }
            // Servers whose clocks and links run unevenly for a while.
            let uneven = self.cfg.election >= 60 && self.rng.chance(70);
            if uneven && !full {
                let promise = |s: &Self| s.nodes.iter().map(|x| x.op.as_ref().map(|o| o.get_promise())).collect::<Vec<_>>();
                let p = promise(self);
                for _ in 0..self.rng.range(5, 40) {
                    match self.rng.below(8) {
                        0 | 1 => {
                            if let Some(x) = self.append(l) {
                                ids.push(x);
                            }
                        }
                        2 => {
                            let i = if self.rng.chance(50) { l } else { self.rng.below(n) };
                            for _ in 0..self.rng.range(1, f) {
                                self.tick(i);
                            }
                        }
                        3 | 4 => {
                            let i = self.rng.below(n);
                            self.send(i);
                        }
                        _ => {
                            let (i, j) = (self.rng.below(n), self.rng.below(n));
                            let (i, j) = if self.rng.chance(50) { (l, j) } else { (i, l) };
                            for _ in 0..self.rng.range(1, 4) {
                                self.deliver(i, j);
                            }
                        }
                    }
                }
                self.cut_off(&gone);
                for _ in 0..2 * f {
                    self.round();
                }
                if promise(self) != p {
                    return;
                }
                self.bump("uneven batches");
                self.expect(&ids, before, &format!("within two flush timeouts of {} ticks", f));
                if !gone.is_empty() {
                    self.heal_all(&gone);
                    if self.agree("C09").map(|x| x.0) != Some(l) {
                        return;
                    }
                }
                continue;
            }
            let cut_at = self.rng.below(k + 1);
            for c in 0..k {
                if c == cut_at {
                    self.cut_off(&gone);
                }
                if let Some(x) = self.append(l) {
                    ids.push(x);
                }
                if self.rng.chance(20) {
                    self.send(l);
                }
                if self.rng.chance(10) {
                    self.drain();
                }
            }
            if full {
                // One message round trip.
                self.send(l);
                for j in 0..n {
                    while j != l && self.deliver(l, j) {}
                }
                for j in 0..n {
                    self.send(j);
                    while j != l && self.deliver(j, l) {}
                }
                self.bump("full batches");
                self.expect(&ids, before, "as soon as the batch size is reached");
                continue;
            }
            if cut_at == k {
                self.cut_off(&gone);
            }
            for _ in 0..2 * f {
                self.round();
            }
            self.bump("partial batches");
            self.expect(&ids, before, &format!("within two flush timeouts of {} ticks", f));
            if !gone.is_empty() {
                self.bump("batches with servers cut off");
                self.heal_all(&gone);
                if self.agree("C09").map(|x| x.0) != Some(l) {
                    return;
                }
            }
        }
    }
    fn heal_all(&mut self, v: &[usize]) {
        for i in v {
            for j in 0..self.cfg.n() {
                if *i != j {
                    self.heal(*i, j);
                }
            }
        }
        self.flush_pending();
    }
    /// Cuts all links of the given servers.
    fn cut_off(&mut self, v: &[usize]) {
        for i in v {
            for j in 0..self.cfg.n() {
                if *i != j {
                    self.cut(*i, j);
                }
            }
        }
    }
    fn expect(&mut self, ids: &[u64], before: usize, when: &str) {
        let got = self.mon.g.get(before..).unwrap_or(&[]).to_vec();
        if got != ids {
            let m = format!("appended {:?} to a stable leader, decided {} were {:?}", ids, when, got);
            self.viol("C24", m);
        }
    }

    fn emitted(&mut self, i: usize) -> Vec<(&'static str, NodeId, u64)> {
        let mut buf: Vec<Message<T>> = vec![];
        self.call(i, |op| op.take_outgoing_messages(&mut buf));
        let mut v = vec![];
        for m in &buf {
            self.on_emit(i, m);
            let k = crate::sim::msg_kind(m);
            let len = match m {
                Message::SequencePaxos(p) => match &p.msg {
                    omnipaxos::messages::sequence_paxos::PaxosMsg::AcceptDecide(a) => a.entries.len() as u64,
                    _ => 0,
                },
                _ => 0,
            };
            v.push((k, m.get_receiver(), len));
        }
        v
    }
    /// C24, first half: exact periods. All other servers are silent after the preparation.
    pub fn timers(&mut self) {
        let n = self.cfg.n();
        let (e, r, f) = (self.cfg.election, self.cfg.resend, self.cfg.flush);
        let mode = self.rng.below(7);
        let i;
        let mut peers: Vec<NodeId>;
        // What the observed server must resend, and to whom.
        let kind: Option<&'static str>;
        match mode {
            0 => {
                i = self.rng.below(n);
                peers = vec![];
                kind = None;
            }
            1 => {
                // Restarted server that hears nothing.
                let Some(_) = self.agree("C09") else {
                    return;
                };
                i = self.rng.below(n);
                self.crash(i);
                for j in 0..n {
                    self.cut(i, j);
                }
                self.restart(i);
                peers = self.cfg.pids.clone();
                kind = Some("PrepareReq");
            }
            2 => {
                // Candidate without answers.
                i = self.rng.below(n);
                if self.rng.chance(50) && self.agree("C09").is_none() {
                    return;
                }
                self.drain();
                for j in 0..n {
                    self.cut(i, j);
                }
                self.call(i, |op| op.try_become_leader());
                self.observe(i);
                peers = self.cfg.pids.clone();
                kind = Some("Prepare");
            }
            3 => {
                // Follower that promised and hears nothing more.
                if self.agree("C09").is_none() {
                    return;
                }
                let l = self.rng.below(n);
                i = (l + 1 + self.rng.below(n - 1)) % n;
                self.call(l, |op| op.try_become_leader());
                self.observe(l);
                self.send(l);
                while self.deliver(l, i) {}
                if self.nodes[i].op.as_ref().map(|o| o.get_promise().pid) != Some(self.cfg.pids[l]) {
                    return;
                }
                for j in 0..n {
                    self.cut(i, j);
                }
                peers = vec![self.cfg.pids[l]];
                kind = Some("Promise");
            }
            4 => {
                // Leader whose reconfiguration nobody acknowledges.
                let Some((l, _)) = self.agree("C09") else {
                    return;
                };
                i = l;
                for j in 0..n {
                    self.cut(i, j);
                }
                self.reconfigure(i, false);
                peers = self.cfg.pids.clone();
                kind = Some("AcceptStopSign");
            }
            6 => {
                // Leader with a decided reconfiguration: it cannot know whether all have heard of it.
                let Some((l, _)) = self.agree("C09") else {
                    return;
                };
                i = l;
                self.reconfigure(i, false);
                let b = self.cfg.bound_decide();
                for _ in 0..b {
                    self.round();
                }
                if self.nodes.iter().any(|x| x.op.as_ref().map(|o| o.is_reconfigured().is_none()).unwrap_or(true)) {
                    return; // judged by C13
                }
                for j in 0..n {
                    self.cut(i, j);
                }
                peers = self.cfg.pids.clone();
                kind = Some("Decide");
            }
            _ => {
                // Leader with a batch.
                let Some((l, _)) = self.agree("C09") else {
                    return;
                };
                i = l;
                for j in 0..n {
                    self.cut(i, j);
                }
                peers = self.cfg.pids.clone();
                kind = Some("AcceptDecide");
            }
        }
        let me = self.cfg.pids[i];
        peers.retain(|p| *p != me);
        peers.sort_unstable();
        let all: Vec<NodeId> = {
            let mut v: Vec<NodeId> = self.cfg.pids.iter().copied().filter(|p| *p != me).collect();
            v.sort_unstable();
            v
        };
        // What is pending from before is not judged; find the clock phases by counting from here.
        let _ = self.emitted(i);
        let total = 3 * e.max(r).max(f) + self.rng.below(6) as u64;
        let mut seen_hb: Vec<u64> = vec![];
        let mut seen: Vec<u64> = vec![];
        let mut waiting = 0u64;
        let mut since = 0u64;
        let batch = self.cfg.batch[i] as u64;
        let mut flushes: Vec<u64> = vec![];
        for t in 1..=total {
            if mode == 5 && self.rng.chance(30) && waiting + 1 < batch {
                if self.append(i).is_some() {
                    waiting += 1;
                    if waiting == 1 {
                        since = t;
                    }
                }
            }
            self.tick(i);
            let em = self.emitted(i);
            let mut hb: Vec<NodeId> = em.iter().filter(|x| x.0 == "HbRequest").map(|x| x.1).collect();
            hb.sort_unstable();
            if !hb.is_empty() {
                seen_hb.push(t);
                if hb != all {
                    self.viol("C24", format!("server {} asked {:?} for heartbeats instead of {:?}", me, hb, all));
                }
            }
            let Some(kind) = kind else { continue };
            let mut to: Vec<NodeId> = em.iter().filter(|x| x.0 == kind).map(|x| x.1).collect();
            to.sort_unstable();
            if mode == 5 {
                if !to.is_empty() {
                    flushes.push(t);
                    let k = em.iter().find(|x| x.0 == kind).unwrap().2;
                    if to != all || k != waiting {
                        self.viol("C24", format!("flush sent {} entries to {:?}, {} were batched for {:?}", k, to, waiting, all));
                    }
                    waiting = 0;
                } else if waiting > 0 && flushes.first().map(|x| (t - x) % f == 0).unwrap_or(t - since >= f) {
                    let m = format!("{} batched entries not flushed at tick {}, flushes at {:?} (timeout {})", waiting, t, flushes, f);
                    self.viol("C24", m);
                }
            } else if !to.is_empty() {
                seen.push(t);
                if to != peers {
                    self.viol("C24", format!("server {} resent {} to {:?} instead of {:?}", me, kind, to, peers));
                }
            }
        }
        self.bump("timer observations");
        let periodic = |v: &[u64], p: u64| {
            v.first().map(|x| *x <= p).unwrap_or(false) && v.windows(2).all(|w| w[1] - w[0] == p) && v.last().map(|x| total - x < p).unwrap_or(false)
        };
        if !periodic(&seen_hb, e) {
            self.viol("C24", format!("heartbeats of server {} at ticks {:?}, election timeout {}", me, seen_hb, e));
        }
        if let Some(k) = kind {
            if mode == 5 {
                if flushes.windows(2).any(|w| (w[1] - w[0]) % f != 0) {
                    self.viol("C24", format!("batch of server {} flushed at ticks {:?}, flush timeout {}", me, flushes, f));
                }
                self.add("flushes observed", flushes.len() as u64);
            } else {
                self.bump(k);
                if !periodic(&seen, r) {
                    self.viol("C24", format!("{} resent by server {} at ticks {:?}, resend timeout {}", k, me, seen, r));
                }
            }
        }
    }
}
