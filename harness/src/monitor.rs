//! The monitors: online oracles over the observed executions. They see the public API of every
//! server, every message at emission and delivery, and every storage write (through `store.rs`).
use crate::{
    entry::Val,
    sim::{Comp, Sim, SimCfg},
    store::{bk, ss_id, BalKey, SS_BIT},
};
use omnipaxos::{
    messages::{
        ballot_leader_election::{BLEMessage, HeartbeatMsg},
        sequence_paxos::{Compaction, PaxosMsg},
        Message,
    },
    util::LogEntry,
};
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct Violation {
    pub prop: &'static str,
    pub msg: String,
    pub step: usize,
}
/// Which heartbeat replies can be answers to requests of the receiver's current heartbeat period.
pub struct Beats {
    pub ticks: Vec<u64>,
    /// Requests from i to j that have been sent, by this incarnation of i.
    sent: Vec<Vec<u64>>,
    /// The latest of them that j has got (at most too high).
    got: Vec<Vec<u64>>,
    /// Peers that may have answered in the current and in the previous period.
    now: Vec<Vec<usize>>,
    prev: Vec<Vec<usize>>,
}
impl Beats {
    fn new(n: usize) -> Self {
        Beats { ticks: vec![0; n], sent: vec![vec![0; n]; n], got: vec![vec![0; n]; n], now: vec![vec![]; n], prev: vec![vec![]; n] }
    }
    pub fn ticked(&mut self, i: usize, election: u64) {
        self.ticks[i] += 1;
        if self.ticks[i] % election == 0 {
            self.prev[i] = std::mem::take(&mut self.now[i]);
        }
    }
    fn period(&self, i: usize, election: u64) -> u64 {
        1 + self.ticks[i] / election
    }
    pub fn delivered_request(&mut self, i: usize, j: usize, behind: u64) {
        self.got[i][j] = self.sent[i][j] - behind.min(self.sent[i][j]);
    }
    pub fn delivered_reply(&mut self, from: usize, i: usize, election: u64) {
        if self.got[i][from] >= self.period(i, election) && !self.now[i].contains(&from) {
            self.now[i].push(from);
        }
    }
}
/// A leadership (server, incarnation, round) and the server the entries come from.
pub type Arrival = (usize, u32, BalKey, usize);

pub struct Mon {
    pub viol: Vec<Violation>,
    /// Found while the servers were borrowed, reported afterwards.
    pub late: Vec<(&'static str, String)>,
    /// The decided sequence, as first observed on any server.
    pub g: Vec<u64>,
    pub g_pos: HashMap<u64, usize>,
    /// Round of the server that was first seen with the position decided.
    pub dec_round: Vec<BalKey>,
    pub appended: HashSet<u64>,
    pub refused: HashSet<u64>,
    pub beats: Beats,
    pub ss_requested: HashSet<u64>,
    leader_order: HashMap<Arrival, Vec<u64>>,
    /// Which arrivals at a leader an id belongs to: (key, sequence number).
    pub leader_of: HashMap<u64, (Arrival, usize)>,
    leader_last: HashMap<Arrival, usize>,
    // per server
    pub decided: Vec<usize>,
    promise: Vec<BalKey>,
    compacted: Vec<usize>,
    acc_round: Vec<BalKey>,
    version: Vec<u64>,
    held: Vec<usize>,
    reconfigured: Vec<Option<u64>>,
    sent_promise: Vec<BalKey>,
    acked: Vec<HashMap<BalKey, usize>>,
    promises: Vec<HashMap<BalKey, HashSet<usize>>>,
    pub established: HashSet<BalKey>,
    owner: HashMap<BalKey, (usize, u32)>,
    // evidence counters
    pub c01_checks: u64,
    pub c02_checks: u64,
    pub c03_checks: u64,
    pub c04_checks: u64,
    pub c05_checks: u64,
    pub c06_checks: u64,
    pub c07_checks: u64,
    pub c08_checks: u64,
    pub c12_checks: u64,
    pub c13_checks: u64,
    pub c14_checks: u64,
    pub c15_checks: u64,
    pub c16_checks: u64,
    pub c23_checks: u64,
    pub c25_checks: u64,
    pub leaders: u64,
    pub max_leader_rounds: u64,
    pub max_decide_rounds: u64,
}
const NOB: BalKey = (0, 0, 0, 0);
/// Order of ballots: round number, priority, pid (the configuration is the same in a run).
fn ord(b: BalKey) -> (u32, u32, u64) {
    (b.0, b.1, b.2)
}

impl Mon {
    pub fn new(c: &SimCfg) -> Self {
        let n = c.n();
        Mon {
            viol: vec![],
            late: vec![],
            g: vec![],
            g_pos: HashMap::new(),
            dec_round: vec![],
            appended: HashSet::new(),
            refused: HashSet::new(),
            beats: Beats::new(n),
            ss_requested: HashSet::new(),
            leader_order: HashMap::new(),
            leader_of: HashMap::new(),
            leader_last: HashMap::new(),
            decided: vec![0; n],
            promise: vec![NOB; n],
            compacted: vec![0; n],
            acc_round: vec![NOB; n],
            version: vec![u64::MAX; n],
            held: vec![0; n],
            reconfigured: vec![None; n],
            sent_promise: vec![NOB; n],
            acked: vec![HashMap::new(); n],
            promises: vec![HashMap::new(); n],
            established: HashSet::new(),
            owner: HashMap::new(),
            c01_checks: 0,
            c02_checks: 0,
            c03_checks: 0,
            c04_checks: 0,
            c05_checks: 0,
            c06_checks: 0,
            c07_checks: 0,
            c08_checks: 0,
            c12_checks: 0,
            c13_checks: 0,
            c14_checks: 0,
            c15_checks: 0,
            c16_checks: 0,
            c23_checks: 0,
            c25_checks: 0,
            leaders: 0,
            max_leader_rounds: 0,
            max_decide_rounds: 0,
        }
    }
    pub fn violation(&mut self, prop: &'static str, msg: String, step: usize) {
        if !self.viol.iter().any(|v| v.prop == prop) {
            self.viol.push(Violation { prop, msg, step });
        }
    }
    pub fn counters(&self) -> BTreeMap<&'static str, u64> {
        [
            ("decided positions compared", self.c01_checks),
            ("decided index and re-read checks", self.c02_checks),
            ("decided entries checked for origin", self.c03_checks),
            ("write-quorum checks", self.c04_checks),
            ("acknowledgements checked against storage", self.c05_checks),
            ("round checks", self.c06_checks),
            ("leaders checked at takeover", self.c07_checks),
            ("log pairs compared", self.c08_checks),
            ("reconfiguration marker checks", self.c12_checks),
            ("admission answers checked", self.c13_checks),
            ("snapshots checked", self.c14_checks),
            ("trims checked", self.c15_checks),
            ("reads compared", self.c16_checks),
            ("messages round-tripped", self.c23_checks),
            ("status reports checked", self.c25_checks),
            ("rounds established", self.leaders),
        ]
        .into_iter()
        .collect()
    }
    pub fn leader_append(&mut self, key: Arrival, id: u64) {
        let v = self.leader_order.entry(key).or_default();
        self.leader_of.insert(id, (key, v.len()));
        v.push(id);
    }
}

pub fn brief<T: Val>(m: &Message<T>) -> String {
    let b = |x: omnipaxos::ballot_leader_election::Ballot| format!("{}.{}.{}", x.n, x.priority, x.pid);
    match m {
        Message::SequencePaxos(p) => match &p.msg {
            PaxosMsg::PrepareReq(x) => format!("PrepareReq n={}", b(x.n)),
            PaxosMsg::Prepare(x) => format!(
                "Prepare n={} dec={} na={} acc={}",
                b(x.n),
                x.decided_idx,
                b(x.n_accepted),
                x.accepted_idx
            ),
            PaxosMsg::Promise(x) => format!(
                "Promise n={} na={} dec={} acc={} sync={}",
                b(x.n),
                b(x.n_accepted),
                x.decided_idx,
                x.accepted_idx,
                x.log_sync
                    .as_ref()
                    .map(|l| format!("@{}+{} snap={} ss={}", l.sync_idx, l.suffix.len(), l.decided_snapshot.is_some(), l.stopsign.is_some()))
                    .unwrap_or("-".into())
            ),
            PaxosMsg::AcceptSync(x) => format!(
                "AcceptSync n={} seq={:?} dec={} @{}+{:?} snap={:?} ss={}",
                b(x.n),
                x.seq_num,
                x.decided_idx,
                x.log_sync.sync_idx,
                x.log_sync.suffix.iter().map(|e| e.id()).collect::<Vec<_>>(),
                x.log_sync.decided_snapshot,
                x.log_sync.stopsign.is_some()
            ),
            PaxosMsg::AcceptDecide(x) => {
                format!("AcceptDecide n={} seq={:?} dec={} {:?}", b(x.n), x.seq_num, x.decided_idx, x.entries)
            }
            PaxosMsg::Accepted(x) => format!("Accepted n={} idx={}", b(x.n), x.accepted_idx),
            PaxosMsg::NotAccepted(x) => format!("NotAccepted n={}", b(x.n)),
            PaxosMsg::Decide(x) => format!("Decide n={} seq={:?} dec={}", b(x.n), x.seq_num, x.decided_idx),
            PaxosMsg::ProposalForward(x) => format!("ProposalForward {:?}", x.iter().map(|e| e.id()).collect::<Vec<_>>()),
            PaxosMsg::Compaction(Compaction::Trim(i)) => format!("Compaction trim {}", i),
            PaxosMsg::Compaction(Compaction::Snapshot(i)) => format!("Compaction snapshot {:?}", i),
            PaxosMsg::AcceptStopSign(x) => format!("AcceptStopSign n={} seq={:?}", b(x.n), x.seq_num),
            PaxosMsg::ForwardStopSign(_) => "ForwardStopSign".into(),
        },
        Message::BLE(x) => match &x.msg {
            HeartbeatMsg::Request(r) => format!("HbRequest {}", r.round),
            HeartbeatMsg::Reply(r) => format!("HbReply {} bal={} leader={} happy={}", r.round, b(r.ballot), b(r.leader), r.happy),
        },
    }
}

/// What a delivery of a message of some round found.
pub struct Pre {
    version: u64,
    /// The message must not change the stored state.
    frozen: Option<String>,
}

impl<T: Val> Sim<T> {
    pub fn snapshots_checked(&self) -> bool {
        T::SNAP && self.cfg.comp != Comp::Mixed
    }
    fn gpush(&mut self, i: usize, id: u64, round: BalKey) {
        let pid = self.nodes[i].pid;
        let p = self.mon.g.len();
        self.mon.c03_checks += 1;
        if let Some(last) = self.mon.g.last() {
            if last & SS_BIT != 0 {
                self.viol("C12", format!("server {} decided position {} after the reconfiguration marker", pid, p));
            }
        }
        if id & SS_BIT != 0 {
            if !self.mon.ss_requested.contains(&id) {
                self.viol("C03", format!("server {} decided a reconfiguration at {} nobody requested", pid, p));
                self.viol("C12", format!("server {} decided a reconfiguration at {} nobody requested", pid, p));
            }
        } else {
            if !self.mon.appended.contains(&id) {
                self.viol("C03", format!("server {} decided id {} at {} that nobody appended", pid, id, p));
            }
            if self.mon.refused.contains(&id) {
                self.viol("C13", format!("server {} decided id {} at {} whose append was refused", pid, id, p));
            }
            if let Some(q) = self.mon.g_pos.get(&id).copied() {
                self.viol("C03", format!("id {} decided twice, at {} and {}", id, q, p));
            }
            if let Some((key, k)) = self.mon.leader_of.get(&id).copied() {
                if let Some(prev) = self.mon.leader_last.get(&key).copied() {
                    if k < prev {
                        let other = self.mon.leader_order[&key][prev];
                        self.viol(
                            "C03",
                            format!("leader {} got {} before {} from server {} in one round, decided in the other order", self.nodes[key.0].pid, id, other, self.nodes[key.3].pid),
                        );
                    }
                }
                self.mon.leader_last.insert(key, k);
            }
        }
        self.mon.g_pos.entry(id).or_insert(p);
        self.mon.g.push(id);
        self.mon.dec_round.push(round);
    }
    /// Position p is decided on server i with this content.
    fn decided_is(&mut self, i: usize, p: usize, id: u64, round: BalKey) {
        if p < self.mon.g.len() {
            self.mon.c01_checks += 1;
            if self.mon.g[p] != id {
                let pid = self.nodes[i].pid;
                let w = self.mon.g[p];
                self.viol("C01", format!("position {}: server {} decided {:x} but {:x} was decided before", p, pid, id, w));
            }
        } else if p == self.mon.g.len() {
            self.gpush(i, id, round);
        } else {
            let pid = self.nodes[i].pid;
            let l = self.mon.g.len();
            self.viol("C14", format!("server {} decided position {} with positions from {} never seen decided", pid, p, l));
        }
    }
    /// Reads [from, decided) through the API and compares with the decided sequence.
    fn read_decided(&mut self, i: usize, from: usize, dec: usize, tag: &'static str) {
        if from >= dec {
            return;
        }
        let pid = self.nodes[i].pid;
        let round = self.nodes[i].store.i().sh.acc_round.map(bk).unwrap_or(NOB);
        let Some(r) = self.call(i, |op| op.read_decided_suffix(from)) else {
            return;
        };
        let Some(v) = r else {
            self.viol(tag, format!("server {}: read_decided_suffix({}) returned None with decided index {}", pid, from, dec));
            self.viol("C16", format!("server {}: read_decided_suffix({}) returned None with decided index {}", pid, from, dec));
            return;
        };
        let mut p = from;
        let n = v.len();
        for (k, e) in v.into_iter().enumerate() {
            match e {
                LogEntry::Decided(x) => {
                    if !x.intact() {
                        self.viol("C03", format!("server {}: decided entry at {} is not what was appended: {:?}", pid, p, x));
                    }
                    self.decided_is(i, p, x.id(), round);
                    p += 1;
                }
                LogEntry::StopSign(ss, d) => {
                    if !d {
                        self.viol("C16", format!("server {}: marker at {} < decided index {} labelled undecided", pid, p, dec));
                        self.viol("C12", format!("server {}: marker at {} < decided index {} labelled undecided", pid, p, dec));
                    }
                    if k + 1 != n {
                        self.viol("C12", format!("server {}: marker at {} is not the last decided position", pid, p));
                    }
                    self.decided_is(i, p, ss_id(&ss), round);
                    p += 1;
                }
                LogEntry::Trimmed(t) => {
                    if t > self.mon.g.len() {
                        self.viol("C15", format!("server {} trimmed up to {} but only {} positions were decided", pid, t, self.mon.g.len()));
                    }
                    if T::SNAP && self.cfg.comp == Comp::Snap {
                        self.viol("C14", format!("server {} reports positions below {} as trimmed, no snapshot", pid, t));
                    }
                    p = t;
                }
                LogEntry::Snapshotted(s) => {
                    if self.snapshots_checked() {
                        self.mon.c14_checks += 1;
                        let ids = T::snap_ids(&s.snapshot);
                        let t = s.trimmed_idx;
                        let want = &self.mon.g[..t.min(self.mon.g.len())];
                        if ids != want || t > self.mon.g.len() {
                            let w = want.to_vec();
                            self.viol("C14", format!("server {}: snapshot of {} positions is {:?}, decided were {:?}", pid, t, ids, w));
                        }
                    }
                    p = s.trimmed_idx;
                }
                LogEntry::Undecided(x) => {
                    let m = format!("server {}: position {} < decided index {} labelled undecided (id {})", pid, p, dec, x.id());
                    self.viol("C16", m);
                    p += 1;
                }
            }
        }
        if p != dec {
            let m = format!("server {}: read_decided_suffix({}) ends at {}, decided index {}", pid, from, p, dec);
            self.viol("C16", m.clone());
            self.viol(tag, m);
        }
    }

    /// Called once after a server was rebuilt from its storage.
    pub fn mon_restart(&mut self, i: usize) {
        let pid = self.nodes[i].pid;
        let op = self.nodes[i].op.as_ref().unwrap();
        let got = (op.get_promise(), op.get_decided_idx(), op.get_compacted_idx());
        let (p, d, c, len, acc) = {
            let s = self.nodes[i].store.i();
            (s.sh.promise, s.sh.decided, s.sh.compacted, s.sh.accepted(), s.sh.acc_round.map(bk).unwrap_or(NOB))
        };
        self.mon.c05_checks += 1;
        if bk(got.0) != p.map(bk).unwrap_or(NOB) || got.1 != d || got.2 != c {
            self.viol("C19", format!("server {} restarted with promise/decided/compacted {:?}, stored {:?}", pid, got, (p, d, c)));
        }
        if ord(bk(got.0)) < ord(self.mon.sent_promise[i]) {
            let s = self.mon.sent_promise[i];
            self.viol("C05", format!("server {} restarted at promise {:?} after promising {:?}", pid, got.0, s));
        }
        if let Some(a) = self.mon.acked[i].get(&acc).copied() {
            if a > len {
                self.viol("C05", format!("server {} restarted with {} positions of round {:?} after acknowledging {}", pid, len, acc, a));
            }
        }
        if got.1 < self.mon.decided[i] {
            let w = self.mon.decided[i];
            self.viol("C02", format!("server {} restarted with decided index {} after reporting {}", pid, got.1, w));
        }
        // Everything decided before must still be readable and the same.
        self.mon.c02_checks += 1;
        self.read_decided(i, 0, got.1, "C02");
    }

    fn observe_store(&mut self, i: usize) {
        let pid = self.nodes[i].pid;
        let n = self.cfg.n();
        let st = self.nodes[i].store.clone();
        let s = st.i();
        let sh = &s.sh;
        let promise = sh.promise.map(bk).unwrap_or(NOB);
        let acc = sh.acc_round.map(bk).unwrap_or(NOB);
        self.mon.c06_checks += 1;
        if ord(promise) < ord(self.mon.promise[i]) {
            let w = self.mon.promise[i];
            self.viol("C06", format!("server {}: stored promise went from {:?} back to {:?}", pid, w, promise));
        }
        self.mon.promise[i] = promise;
        if ord(acc) < ord(self.mon.acc_round[i]) {
            let w = self.mon.acc_round[i];
            self.viol("C06", format!("server {}: accepted round went from {:?} back to {:?}", pid, w, acc));
        }
        if ord(acc) > ord(promise) {
            self.viol("C06", format!("server {}: accepted in round {:?} beyond its promise {:?}", pid, acc, promise));
        }
        if ord(promise) < ord(self.mon.sent_promise[i]) {
            let w = self.mon.sent_promise[i];
            self.viol("C05", format!("server {} stores promise {:?} after promising {:?}", pid, promise, w));
        }
        if let Some(a) = self.mon.acked[i].get(&acc).copied() {
            self.mon.c05_checks += 1;
            if sh.accepted() < a {
                self.viol("C05", format!("server {} stores {} positions of round {:?} after acknowledging {}", pid, sh.accepted(), acc, a));
            }
        }
        // Decided positions of a server that is down (a running one is read through the API).
        if self.nodes[i].op.is_none() {
            for p in self.mon.decided[i]..sh.decided {
                if let Some(id) = sh.id_at(p) {
                    self.decided_is(i, p, id, acc);
                }
            }
            if sh.decided > self.mon.decided[i] {
                self.mon.decided[i] = sh.decided;
            }
        }
        // Leader at takeover.
        if acc != self.mon.acc_round[i] {
            self.mon.acc_round[i] = acc;
            if acc.2 == pid {
                self.mon.c07_checks += 1;
                self.mon.leaders += 1;
                self.mon.established.insert(acc);
                let got = self.mon.promises[i].get(&acc).map(|s| s.len()).unwrap_or(0) + 1;
                if got < self.cfg.r() {
                    self.viol("C07", format!("server {} leads round {:?} with {} promises, read quorum {}", pid, acc, got, self.cfg.r()));
                }
                for p in 0..self.mon.g.len() {
                    if ord(self.mon.dec_round[p]) < ord(acc) && p >= sh.base && sh.id_at(p) != Some(self.mon.g[p]) {
                        let w = self.mon.g[p];
                        self.viol(
                            "C07",
                            format!("leader {} of round {:?} holds {:x?} at {} where {:x} was decided in {:?}", pid, acc, sh.id_at(p), p, w, self.mon.dec_round[p]),
                        );
                        break;
                    }
                }
            }
        }
        // Log matching with every other server in the same round.
        for j in 0..n {
            if j == i {
                continue;
            }
            let o = self.nodes[j].store.clone();
            let o = o.i();
            if o.sh.acc_round.map(bk).unwrap_or(NOB) != acc {
                continue;
            }
            self.mon.c08_checks += 1;
            let lo = sh.base.max(o.sh.base);
            let hi = sh.accepted().min(o.sh.accepted());
            for p in lo..hi {
                if sh.id_at(p) != o.sh.id_at(p) {
                    let m = format!(
                        "servers {} and {} in round {:?} hold {:x?} and {:x?} at position {}",
                        pid, self.nodes[j].pid, acc, sh.id_at(p), o.sh.id_at(p), p
                    );
                    self.viol("C08", m);
                    break;
                }
            }
        }
        // Snapshots.
        if sh.compacted < self.mon.compacted[i] {
            let w = self.mon.compacted[i];
            self.viol("C14", format!("server {}: compacted index went from {} back to {}", pid, w, sh.compacted));
            self.viol("C15", format!("server {}: compacted index went from {} back to {}", pid, w, sh.compacted));
        }
        if sh.compacted > self.mon.compacted[i] && self.cfg.comp == Comp::Trim {
            self.mon.c15_checks += 1;
            let min = (0..n).map(|j| self.nodes[j].store.i().sh.accepted()).min().unwrap();
            if sh.compacted > min {
                self.viol("C15", format!("server {} trimmed to {} while a server stores only {}", pid, sh.compacted, min));
            }
        }
    }
    /// Checks over all storages that need the decided sequence to be up to date.
    fn observe_global(&mut self, i: usize) {
        let pid = self.nodes[i].pid;
        let st = self.nodes[i].store.clone();
        let s = st.i();
        let sh = &s.sh;
        if self.snapshots_checked() && sh.compacted > 0 {
            self.mon.c14_checks += 1;
            match &sh.snapshot {
                None => self.viol("C14", format!("server {}: {} positions compacted without a snapshot", pid, sh.compacted)),
                Some(x) => {
                    let ids = T::snap_ids(x);
                    let t = sh.compacted;
                    let want = self.mon.g[..t.min(self.mon.g.len())].to_vec();
                    if ids != want || t > self.mon.g.len() {
                        self.viol("C14", format!("server {}: stored snapshot of {} positions is {:?}, decided were {:?}", pid, t, ids, want));
                    }
                }
            }
        }
        if sh.compacted > self.mon.compacted[i] && self.cfg.comp == Comp::Trim {
            for j in 0..self.cfg.n() {
                let h = self.matched(j);
                if h < sh.compacted {
                    let m = format!("server {} trimmed to {} but server {} holds only {} of these", pid, sh.compacted, self.nodes[j].pid, h);
                    self.viol("C15", m);
                }
            }
        }
        self.mon.compacted[i] = sh.compacted;
        self.mon.held[i] = self.matched(i);
        self.check_held();
    }
    pub fn check_held(&mut self) {
        self.mon.c04_checks += 1;
        let mut h: Vec<usize> = (0..self.cfg.n()).map(|j| self.matched(j)).collect();
        h.sort_unstable_by(|a, b| b.cmp(a));
        let w = self.cfg.w();
        if h[w - 1] < self.mon.g.len() {
            let l = self.mon.g.len();
            self.viol("C04", format!("{} positions are decided but stored only {:?} long on the servers, write quorum {}", l, h, w));
        }
    }
    /// Length of the decided sequence stored by server j.
    fn matched(&self, j: usize) -> usize {
        let s = self.nodes[j].store.i();
        let sh = &s.sh;
        let mut p = sh.base;
        while p < self.mon.g.len() && sh.id_at(p) == Some(self.mon.g[p]) {
            p += 1;
        }
        p
    }

    /// After every step of server i.
    pub fn observe(&mut self, i: usize) {
        self.drain_store(i);
        let ver = self.nodes[i].store.i().version;
        let changed = ver != self.mon.version[i];
        if changed {
            self.observe_store(i);
        }
        if self.nodes[i].op.is_some() {
            self.observe_node(i);
        }
        if changed {
            self.observe_global(i);
            self.mon.version[i] = ver;
        }
        self.drain_store(i);
    }
    fn observe_node(&mut self, i: usize) {
        let pid = self.nodes[i].pid;
        let op = self.nodes[i].op.as_ref().unwrap();
        let (dec, comp, promise, leader, rec) =
            (op.get_decided_idx(), op.get_compacted_idx(), op.get_promise(), op.get_current_leader(), op.is_reconfigured());
        let (sdec, scomp, sprom, slen, sss, sacc) = {
            let s = self.nodes[i].store.i();
            (s.sh.decided, s.sh.compacted, s.sh.promise, s.sh.accepted(), s.sh.stopsign.as_ref().map(ss_id), s.sh.acc_round.map(bk).unwrap_or(NOB))
        };
        if self.cfg.digest {
            let v = self.nodes[i].store.i().version;
            let w = format!("{} {} {:?} {:?} {} {} {} {} {:?}", dec, comp, promise, leader, rec.is_some(), v, sdec, slen, sacc);
            let x = w.bytes().fold(0xcbf29ce484222325u64, |h, c| (h ^ c as u64).wrapping_mul(0x100000001b3));
            self.h(x);
        }
        self.mon.c02_checks += 1;
        if dec != sdec {
            self.viol("C02", format!("server {} reports decided index {} but stored {}", pid, dec, sdec));
            self.viol("C25", format!("server {} reports decided index {} but stored {}", pid, dec, sdec));
        }
        if comp != scomp {
            self.viol("C25", format!("server {} reports compacted index {} but stored {}", pid, comp, scomp));
        }
        if bk(promise) != sprom.map(bk).unwrap_or(NOB) {
            self.viol("C06", format!("server {} works with promise {:?} but stored {:?}", pid, promise, sprom));
        }
        if dec < self.mon.decided[i] {
            let w = self.mon.decided[i];
            self.viol("C02", format!("server {}: decided index went from {} back to {}", pid, w, dec));
        }
        let from = self.mon.decided[i];
        if dec > from {
            self.read_decided(i, from, dec, "C02");
            self.mon.decided[i] = dec;
            self.check_held();
            if dec < slen && sss.is_some() && self.mon.g.last().map(|x| x & SS_BIT != 0) == Some(true) && dec == self.mon.g.len() {
                self.viol("C12", format!("server {} stores positions beyond the decided marker", pid));
            }
        }
        if self.nodes[i].op.is_none() {
            return;
        }
        if self.rng.chance(self.cfg.reread_pct) {
            self.mon.c02_checks += 1;
            self.read_decided(i, 0, dec, "C02");
        }
        // Reconfiguration reports.
        self.mon.c12_checks += 1;
        let rec = rec.map(|s| ss_id(&s));
        let sealed = dec > 0 && dec <= self.mon.g.len() && self.mon.g[dec - 1] & SS_BIT != 0;
        match (rec, sealed) {
            (Some(x), true) => {
                if x != self.mon.g[dec - 1] {
                    self.viol("C12", format!("server {} reports another reconfiguration than the decided one", pid));
                }
            }
            (Some(_), false) => self.viol("C12", format!("server {} reports a reconfiguration that is not decided (decided index {})", pid, dec)),
            (None, true) => self.viol("C12", format!("server {} decided the reconfiguration but does not report it", pid)),
            (None, false) => (),
        }
        if self.mon.reconfigured[i].is_some() && rec != self.mon.reconfigured[i] {
            self.viol("C12", format!("server {} no longer reports its reconfiguration", pid));
        }
        if rec.is_some() {
            self.mon.reconfigured[i] = rec;
        }
        // Leader reports.
        self.mon.c25_checks += 1;
        match leader {
            None => {
                if promise.pid != 0 {
                    self.viol("C25", format!("server {} reports no leader with promise {:?}", pid, promise));
                }
            }
            Some((p, acc)) => {
                if p != promise.pid || p == 0 {
                    self.viol("C25", format!("server {} reports leader {} with promise {:?}", pid, p, promise));
                }
                if acc {
                    if !self.mon.established.contains(&bk(promise)) {
                        self.viol("C25", format!("server {} reports round {:?} as accepted, its leader never completed the prepare phase", pid, promise));
                    }
                    if sacc != bk(promise) {
                        self.viol("C25", format!("server {} reports round {:?} as accepted but its log is of round {:?}", pid, promise, sacc));
                    }
                }
            }
        }
        if self.rng.chance(self.cfg.ui_pct) {
            let op = self.nodes[i].op.as_ref().unwrap();
            let u = op.get_ui_states();
            self.mon.c25_checks += 1;
            if u.decided_idx != dec || u.current_leader != leader.map(|l| l.0) {
                self.viol("C25", format!("server {}: dashboard state decided {} leader {:?}, API {} {:?}", pid, u.decided_idx, u.current_leader, dec, leader));
            }
            if leader == Some((pid, true)) {
                let r = bk(promise);
                for j in 0..self.cfg.n() {
                    let q = self.cfg.pids[j];
                    let rep = u.cluster_state.accepted_indexes.get(q as usize).copied();
                    let have = self.nodes[j].store.i().maxlen.get(&r).copied().unwrap_or(0);
                    match rep {
                        Some(x) if x <= have => (),
                        x => self.viol("C25", format!("leader {} reports server {} at {:?}, it stored at most {} in this round", pid, q, x, have)),
                    }
                }
            }
            if u.current_ballot.pid != pid || u.current_ballot.config_id != self.cfg.config_id {
                self.viol("C25", format!("server {} shows {:?} as its ballot", pid, u.current_ballot));
            }
            for hb in [&u.heartbeats, &u.cluster_state.heartbeats] {
                let twice = (1..hb.len()).any(|k| hb[..k].iter().any(|h| h.ballot.pid == hb[k].ballot.pid || h.round != hb[k].round));
                if twice {
                    self.viol("C25", format!("server {} shows heartbeats of several rounds or several of one peer as those of its last round: {:?}", pid, hb));
                }
            }
            for h in u.heartbeats.iter().chain(u.cluster_state.heartbeats.iter()) {
                let ok = self.idx(h.ballot.pid).is_some() && h.ballot.pid != pid;
                if !ok {
                    self.viol("C25", format!("server {} shows a heartbeat of {:?}", pid, h.ballot));
                }
                if let (Some(j), 1) = (self.idx(h.ballot.pid), self.nodes[i].inc) {
                    if !self.mon.beats.prev[i].contains(&j) {
                        self.viol("C25", format!("server {} shows server {} as connected, it did not answer in the last heartbeat round", pid, h.ballot.pid));
                    }
                }
            }
        }
        if self.rng.chance(self.cfg.read_pct) {
            self.random_read(i);
        }
    }

    /// C16: one random read against the model.
    pub fn random_read(&mut self, i: usize) {
        let (total, comp, dec) = {
            let s = self.nodes[i].store.i();
            (s.sh.accepted(), s.sh.compacted, s.sh.decided)
        };
        let pt = |s: &mut Self| -> usize {
            match s.rng.below(8) {
                0 => 0,
                1 => comp,
                2 => dec,
                3 => total,
                4 => total + s.rng.below(3),
                5 => comp + s.rng.below(2),
                6 => total.saturating_sub(1 + s.rng.below(2)),
                _ => s.rng.below(total + 2),
            }
        };
        let a = pt(self);
        let b = pt(self);
        let kind = self.rng.below(10);
        let huge = self.rng.below(12) == 0;
        self.one_read(i, a, b, kind, huge);
    }
    pub fn one_read(&mut self, i: usize, a: usize, b: usize, kind: usize, huge: bool) {
        if self.nodes[i].op.is_none() {
            return;
        }
        let pid = self.nodes[i].pid;
        let (total, comp, dec) = {
            let s = self.nodes[i].store.i();
            (s.sh.accepted(), s.sh.compacted, s.sh.decided)
        };
        let fmt = |e: LogEntry<T>| -> String {
            match e {
                LogEntry::Decided(x) => format!("D{:?}", x),
                LogEntry::Undecided(x) => format!("U{:?}", x),
                LogEntry::Trimmed(t) => format!("T{}", t),
                LogEntry::Snapshotted(s) => format!("S{} {:?}", s.trimmed_idx, s.snapshot),
                LogEntry::StopSign(s, d) => format!("SS{} {:?}", d, s),
            }
        };
        // Expected answer for the half-open range a..b, None when the range is empty or inverted.
        let model = |s: &Self, a: usize, b: usize| -> Option<Option<Vec<String>>> {
            if a >= b {
                return None;
            }
            let st = s.nodes[i].store.i();
            let sh = &st.sh;
            if b > total {
                return Some(None);
            }
            let mut v = vec![];
            let mut from = a;
            if a < comp {
                v.push(match &sh.snapshot {
                    Some(x) => format!("S{} {:?}", comp, x),
                    None => format!("T{}", comp),
                });
                from = comp;
            }
            for p in from..b {
                v.push(if p == sh.end() {
                    format!("SS{} {:?}", dec == total, sh.stopsign.as_ref().unwrap())
                } else if p < dec {
                    format!("D{:?}", sh.log[p - sh.base])
                } else {
                    format!("U{:?}", sh.log[p - sh.base])
                });
            }
            Some(Some(v))
        };
        self.mon.c16_checks += 1;
        let (name, got, want): (String, Option<Option<Vec<String>>>, Option<Option<Vec<String>>>) = {
            let m = |o: Option<Vec<LogEntry<T>>>| o.map(|v| v.into_iter().map(fmt).collect::<Vec<_>>());
            let one = |o: Option<LogEntry<T>>| o.map(|e| vec![fmt(e)]);
            if huge {
                let x = usize::MAX - self.rng.below(2);
                match self.rng.below(4) {
                    0 => (format!("read({})", x), self.call(i, |o| one(o.read(x))), Some(None)),
                    1 => (format!("read_entries({}..{})", a, x), self.call(i, |o| m(o.read_entries(a..x))), Some(None)),
                    2 => (format!("read_entries(0..={})", x), self.call(i, |o| m(o.read_entries(0..=x))), Some(None)),
                    _ => (format!("read_decided_suffix({})", x), self.call(i, |o| m(o.read_decided_suffix(x))), Some(None)),
                }
            } else {
                match kind {
                    0 | 1 => {
                        let w = model(self, a, a + 1);
                        (format!("read({})", a), self.call(i, |o| one(o.read(a))), w)
                    }
                    2 => {
                        let w = model(self, a, b.saturating_add(1));
                        (format!("read_entries({}..={})", a, b), self.call(i, |o| m(o.read_entries(a..=b))), w)
                    }
                    3 => {
                        let w = model(self, a, total);
                        (format!("read_entries({}..)", a), self.call(i, |o| m(o.read_entries(a..))), w)
                    }
                    4 => {
                        let w = model(self, 0, b);
                        (format!("read_entries(..{})", b), self.call(i, |o| m(o.read_entries(..b))), w)
                    }
                    5 => {
                        let w = if total == 0 { Some(None) } else { model(self, 0, total) };
                        ("read_entries(..)".into(), self.call(i, |o| m(o.read_entries(..))), w)
                    }
                    6 => {
                        use std::ops::Bound::*;
                        let w = model(self, a + 1, b + 1);
                        (
                            format!("read_entries((Excluded({}),Included({})))", a, b),
                            self.call(i, |o| m(o.read_entries((Excluded(a), Included(b))))),
                            w,
                        )
                    }
                    7 => {
                        let w = if a >= dec { Some(None) } else { model(self, a, dec) };
                        (format!("read_decided_suffix({})", a), self.call(i, |o| m(o.read_decided_suffix(a))), w)
                    }
                    _ => {
                        let w = model(self, a, b);
                        (format!("read_entries({}..{})", a, b), self.call(i, |o| m(o.read_entries(a..b))), w)
                    }
                }
            }
        };
        match got {
            None => {
                // The call panicked; `call` reported it as a crash.
                let why = crate::sim::LAST_PANIC.with(|l| l.borrow().clone());
                self.viol("C16", format!("server {}: {} panicked with log length {} compacted {} decided {}: {}", pid, name, total, comp, dec, why));
            }
            Some(g) => {
                if let Some(w) = want {
                    if g != w {
                        self.viol("C16", format!("server {}: {} returned {:?}, expected {:?}", pid, name, g, w));
                    }
                }
            }
        }
    }

    /// A message leaves server i.
    pub fn on_emit(&mut self, i: usize, m: &Message<T>) {
        let pid = self.nodes[i].pid;
        let inc = self.nodes[i].inc;
        if m.get_sender() != pid {
            self.viol("C06", format!("server {} sends a message in the name of {}", pid, m.get_sender()));
        }
        if let Message::BLE(BLEMessage { msg: HeartbeatMsg::Request(_), .. }) = m {
            if let Some(j) = self.idx(m.get_receiver()) {
                self.mon.beats.sent[i][j] += 1;
            }
        }
        let Message::SequencePaxos(pm) = m else {
            return;
        };
        let (promise, dec) = {
            let s = self.nodes[i].store.i();
            (s.sh.promise.map(bk).unwrap_or(NOB), s.sh.decided)
        };
        let maxlen = |s: &Self, r: BalKey| s.nodes[i].store.i().maxlen.get(&r).copied().unwrap_or(0);
        let mut owned: Option<BalKey> = None;
        match &pm.msg {
            PaxosMsg::Prepare(x) => {
                owned = Some(bk(x.n));
                self.mon.c05_checks += 1;
                if ord(promise) < ord(bk(x.n)) {
                    self.viol("C05", format!("server {} sends Prepare {:?} with stored promise {:?}", pid, x.n, promise));
                }
                if x.accepted_idx > maxlen(self, bk(x.n_accepted)) {
                    self.viol("C05", format!("server {} claims {} positions of round {:?} in a Prepare, stored {}", pid, x.accepted_idx, x.n_accepted, maxlen(self, bk(x.n_accepted))));
                }
            }
            PaxosMsg::Promise(x) => {
                self.mon.c05_checks += 1;
                let n = bk(x.n);
                if ord(promise) < ord(n) {
                    self.viol("C05", format!("server {} promises {:?} with stored promise {:?}", pid, x.n, promise));
                }
                if ord(n) > ord(self.mon.sent_promise[i]) {
                    self.mon.sent_promise[i] = n;
                }
                if x.accepted_idx > maxlen(self, bk(x.n_accepted)) {
                    self.viol("C05", format!("server {} claims {} positions of round {:?} in a Promise, stored {}", pid, x.accepted_idx, x.n_accepted, maxlen(self, bk(x.n_accepted))));
                }
                if x.decided_idx > dec {
                    self.viol("C05", format!("server {} claims decided index {} in a Promise, stored {}", pid, x.decided_idx, dec));
                }
                if pm.to != x.n.pid {
                    self.viol("C06", format!("server {} sends a promise of {:?} to {}", pid, x.n, pm.to));
                }
            }
            PaxosMsg::Accepted(x) => {
                self.mon.c05_checks += 1;
                let n = bk(x.n);
                let have = maxlen(self, n);
                if x.accepted_idx > have {
                    self.viol("C05", format!("server {} acknowledges {} positions of round {:?}, stored {}", pid, x.accepted_idx, x.n, have));
                }
                if ord(promise) < ord(n) {
                    self.viol("C05", format!("server {} acknowledges round {:?} with stored promise {:?}", pid, x.n, promise));
                }
                let a = self.mon.acked[i].entry(n).or_insert(0);
                *a = (*a).max(x.accepted_idx);
            }
            PaxosMsg::AcceptSync(x) => {
                owned = Some(bk(x.n));
                self.mon.c05_checks += 1;
                if x.decided_idx > dec {
                    self.viol("C05", format!("leader {} announces decided index {}, stored {}", pid, x.decided_idx, dec));
                }
                if !self.mon.established.contains(&bk(x.n)) {
                    self.viol("C07", format!("leader {} syncs followers in round {:?} it does not lead", pid, x.n));
                }
            }
            PaxosMsg::AcceptDecide(x) => {
                owned = Some(bk(x.n));
                if x.decided_idx > dec {
                    self.viol("C05", format!("leader {} announces decided index {}, stored {}", pid, x.decided_idx, dec));
                }
                if !self.mon.established.contains(&bk(x.n)) {
                    self.viol("C07", format!("leader {} proposes in round {:?} it does not lead", pid, x.n));
                }
            }
            PaxosMsg::AcceptStopSign(x) => owned = Some(bk(x.n)),
            PaxosMsg::Decide(x) => {
                owned = Some(bk(x.n));
                self.mon.c05_checks += 1;
                if x.decided_idx > dec {
                    self.viol("C05", format!("leader {} announces decided index {}, stored {}", pid, x.decided_idx, dec));
                }
            }
            PaxosMsg::Compaction(c) => {
                if let Compaction::Trim(t) = c {
                    let comp = self.nodes[i].store.i().sh.compacted;
                    let ss = self.nodes[i].store.i().sh.stopsign.is_some() as usize;
                    if *t > comp + ss {
                        self.viol("C15", format!("server {} tells others to trim to {} but trimmed only to {}", pid, t, comp));
                    }
                }
            }
            _ => (),
        }
        if let Some(n) = owned {
            self.mon.c06_checks += 1;
            if n.2 != pid {
                self.viol("C06", format!("server {} acts as leader of round {:?}", pid, n));
            }
            if ord(promise) < ord(n) {
                self.viol("C06", format!("server {} acts as leader of round {:?} with stored promise {:?}", pid, n, promise));
            }
            let o = *self.mon.owner.entry(n).or_insert((i, inc));
            if o != (i, inc) {
                self.viol("C06", format!("round {:?} was led by incarnation {} of server {}, now by incarnation {} of {}", n, o.1, self.nodes[o.0].pid, inc, pid));
            }
        }
    }
    pub fn pre_deliver(&mut self, j: usize, m: &Message<T>) -> Pre {
        let s = self.nodes[j].store.clone();
        let s = s.i();
        let promise = s.sh.promise.map(bk).unwrap_or(NOB);
        let mut frozen = None;
        if let Message::SequencePaxos(pm) = m {
            let n = match &pm.msg {
                PaxosMsg::Prepare(x) => {
                    if ord(bk(x.n)) < ord(promise) {
                        frozen = Some(format!("Prepare of old round {:?} (promise {:?})", x.n, promise));
                    }
                    None
                }
                PaxosMsg::AcceptSync(x) => Some(bk(x.n)),
                PaxosMsg::AcceptDecide(x) => Some(bk(x.n)),
                PaxosMsg::AcceptStopSign(x) => Some(bk(x.n)),
                PaxosMsg::Decide(x) => Some(bk(x.n)),
                PaxosMsg::Promise(x) => {
                    if let Some(f) = self.idx(pm.from) {
                        self.mon.promises[j].entry(bk(x.n)).or_default().insert(f);
                    }
                    None
                }
                _ => None,
            };
            if let Some(n) = n {
                self.mon.c06_checks += 1;
                if n != promise {
                    frozen = Some(format!("{} of round {:?} (promise {:?})", crate::sim::msg_kind(m), n, promise));
                }
            }
        }
        if frozen.is_some() {
            self.stats.entry("deliveries from other rounds").and_modify(|x| *x += 1).or_insert(1);
        }
        Pre {
            version: s.version,
            frozen,
        }
    }
    pub fn post_deliver(&mut self, j: usize, pre: Pre) {
        if let Some(w) = pre.frozen {
            if self.nodes[j].store.i().version != pre.version {
                let pid = self.nodes[j].pid;
                self.viol("C06", format!("server {} changed its storage on {}", pid, w));
            }
        }
    }
}
