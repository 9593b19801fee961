//! Deterministic cluster simulation: real OmniPaxos servers, simulated links, time, crashes and
//! storage faults, observed after every step by the monitors in `monitor.rs`.
use crate::{
    entry::Val,
    monitor::Mon,
    rng::Rng,
    store::{bk, Fault, InjectedCrash, Store},
};
use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::{ballot_leader_election::{BLEMessage, HeartbeatMsg, HeartbeatRequest}, sequence_paxos::{PaxosMessage, PaxosMsg}, Message},
    storage::Storage,
    util::{FlexibleQuorum, NodeId},
    ClusterConfig, CompactionErr, OmniPaxos, OmniPaxosConfig, ProposeErr, ServerConfig,
};
use omnipaxos_storage::memory_storage::MemoryStorage;
use std::{
    cell::RefCell,
    collections::{BTreeMap, VecDeque},
    panic::{catch_unwind, AssertUnwindSafe},
};

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let ours = info.location().map(|l| l.file().starts_with("src/")).unwrap_or(true);
        let injected = info.payload().downcast_ref::<InjectedCrash>().is_some();
        if (ours && !injected) || std::env::var("VH_PANICS").is_ok() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

#[allow(dead_code)]
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Comp {
    None,
    Trim,
    Snap,
    Mixed,
}
/// How messages get lost.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Net {
    /// Only by announced connection losses and crashes.
    Sessions,
    /// Also silently, any message; every pair is told to reconnect before progress is expected.
    Lossy,
    /// Also silently, but only the handshake messages that the library itself resends.
    Handshake,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Codec {
    None,
    Bincode,
    Json,
}

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub config_id: u32,
    pub pids: Vec<NodeId>,
    pub fq: Option<(usize, usize)>,
    pub election: u64,
    pub resend: u64,
    pub flush: u64,
    pub batch: Vec<usize>,
    pub prio: Vec<u32>,
    pub buffer: usize,
    pub comp: Comp,
    pub net: Net,
    pub codec: Codec,
    pub digest: bool,
    pub reconfig: bool,
    pub crashes: bool,
    pub faults: bool,
    pub elections: bool,
    pub steps: usize,
    pub read_pct: u32,
    pub ui_pct: u32,
    pub reread_pct: u32,
    /// Percentage of runs in which reconfiguration requests with invalid content are issued.
    pub fault_at: Option<(usize, u64, Fault)>,
    pub via: u8,
    pub kept_buffer: bool,
    /// Appends per burst.
    pub burst: (usize, usize),
    pub persist: bool,
    pub trace: bool,
}
impl SimCfg {
    pub fn n(&self) -> usize {
        self.pids.len()
    }
    pub fn r(&self) -> usize {
        self.fq.map(|q| q.0).unwrap_or(self.n() / 2 + 1)
    }
    pub fn w(&self) -> usize {
        self.fq.map(|q| q.1).unwrap_or(self.n() / 2 + 1)
    }
    pub fn cluster(&self) -> ClusterConfig {
        ClusterConfig {
            configuration_id: self.config_id,
            nodes: self.pids.clone(),
            flexible_quorum: self.fq.map(|(r, w)| FlexibleQuorum {
                read_quorum_size: r,
                write_quorum_size: w,
            }),
        }
    }
    pub fn server(&self, i: usize) -> ServerConfig {
        ServerConfig {
            pid: self.pids[i],
            election_tick_timeout: self.election,
            resend_message_tick_timeout: self.resend,
            buffer_size: self.buffer,
            batch_size: self.batch[i],
            flush_batch_tick_timeout: self.flush,
            leader_priority: self.prio[i],
            #[cfg(feature = "ui")]
            custom_logger: Some(omnipaxos_ui::OmniPaxosUI::logger()),
            #[cfg(feature = "lg")]
            custom_logger: crate::lg::logger(i),
            #[cfg(feature = "lg")]
            logger_file_path: crate::lg::path(i),
            ..Default::default()
        }
    }
    /// Rounds within which a leader must be agreed on after stabilisation.
    pub fn bound_leader(&self) -> usize {
        (20 * self.election + 6 * self.resend + 2 * self.flush + 20) as usize
    }
    /// Rounds within which an appended entry must be decided everywhere.
    pub fn bound_decide(&self) -> usize {
        (6 * self.flush + 4 * self.resend + 2 * self.election + 10) as usize
    }
}

pub struct Node<T: Val> {
    pub pid: NodeId,
    pub store: Store<T>,
    pub op: Option<OmniPaxos<T, Store<T>>>,
    pub inc: u32,
    /// Panicked inside the library (not injected).
    pub broken: u32,
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Deliver,
    Send,
    Tick,
    Append,
    Burst,
    Cut,
    Heal,
    Isolate,
    HealAll,
    Crash,
    Restart,
    Drop,
    Trim,
    Snapshot,
    Reconfigure,
    BecomeLeader,
    SetPriority,
    Settle,
    StoreFault,
    Notify,
}

pub struct Sim<T: Val> {
    pub cfg: SimCfg,
    pub rng: Rng,
    pub nodes: Vec<Node<T>>,
    pub q: Vec<Vec<VecDeque<Message<T>>>>,
    pub up: Vec<Vec<bool>>,
    /// Directed links whose messages are delayed for now.
    pub slow: Vec<Vec<bool>>,
    /// The number of messages grew without bound.
    pub storm: bool,
    sends: u64,
    /// Reconnect notifications not yet handed to the server: (server, peer).
    pub pending: Vec<(usize, usize)>,
    pub mon: Mon,
    pub next_id: u64,
    pub step: usize,
    pub log: Vec<String>,
    pub hash: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub genuine_panic: bool,
    /// Build servers through `ClusterConfig::build_for_server`.
    /// How servers are configured: 0 in code, 1 through the cluster configuration, 2 from a TOML file.
    pub via: u8,
    pub reopen: Option<Box<dyn Fn(usize, Option<Box<dyn Storage<T>>>) -> Box<dyn Storage<T>>>>,
    /// Removed after the storages in it are closed.
    #[cfg(feature = "ps")]
    pub scratch: Option<crate::stor::Scratch>,
}

pub fn msg_kind<T: Val>(m: &Message<T>) -> &'static str {
    match m {
        Message::SequencePaxos(p) => match &p.msg {
            PaxosMsg::PrepareReq(_) => "PrepareReq",
            PaxosMsg::Prepare(_) => "Prepare",
            PaxosMsg::Promise(_) => "Promise",
            PaxosMsg::AcceptSync(_) => "AcceptSync",
            PaxosMsg::AcceptDecide(_) => "AcceptDecide",
            PaxosMsg::Accepted(_) => "Accepted",
            PaxosMsg::NotAccepted(_) => "NotAccepted",
            PaxosMsg::Decide(_) => "Decide",
            PaxosMsg::ProposalForward(_) => "ProposalForward",
            PaxosMsg::Compaction(_) => "Compaction",
            PaxosMsg::AcceptStopSign(_) => "AcceptStopSign",
            PaxosMsg::ForwardStopSign(_) => "ForwardStopSign",
        },
        Message::BLE(b) => match b.msg {
            HeartbeatMsg::Request(_) => "HbRequest",
            HeartbeatMsg::Reply(_) => "HbReply",
        },
    }
}
fn resent_by_library(kind: &str) -> bool {
    matches!(
        kind,
        "PrepareReq" | "Prepare" | "Promise" | "AcceptSync" | "AcceptStopSign" | "HbRequest" | "HbReply"
    )
}

impl<T: Val> Sim<T> {
    pub fn new(cfg: SimCfg, seed: u64) -> Self {
        let n = cfg.n();
        let mut s = Sim {
            mon: Mon::new(&cfg),
            rng: Rng::new(seed),
            nodes: vec![],
            q: (0..n).map(|_| (0..n).map(|_| VecDeque::new()).collect()).collect(),
            up: vec![vec![true; n]; n],
            slow: vec![vec![false; n]; n],
            storm: false,
            sends: 0,
            pending: vec![],
            next_id: 1,
            step: 0,
            log: vec![],
            hash: 0xcbf29ce484222325,
            stats: BTreeMap::new(),
            genuine_panic: false,
            via: cfg.via,
            reopen: None,
            #[cfg(feature = "ps")]
            scratch: None,
            cfg,
        };
        #[cfg(feature = "ps")]
        if s.cfg.persist {
            let scratch = crate::stor::Scratch::new();
            let dir = scratch.0.clone();
            s.scratch = Some(scratch);
            let opened = std::cell::RefCell::new(vec![0usize; n]);
            let used = std::cell::RefCell::new(vec![false; n]);
            s.reopen = Some(Box::new(move |i, old| {
                // Mostly what a kill of the process leaves behind, otherwise after an orderly end.
                let k = opened.borrow()[i];
                let mut at = format!("{}/{}.{}", dir, i, k);
                let to = format!("{}/{}.{}", dir, i, k + 1);
                if used.borrow()[i] && (seed >> (k % 16)) & 3 > 0 && crate::stor::copy_dir(&at, &to) {
                    drop(old);
                    let _ = std::fs::remove_dir_all(&at);
                    at = to;
                    opened.borrow_mut()[i] += 1;
                } else {
                    drop(old);
                }
                used.borrow_mut()[i] = true;
                Box::new(crate::stor::open::<T>(&at, seed))
            }));
        }
        for i in 0..n {
            let store = Store::new(Box::new(MemoryStorage::<T>::default()));
            if let Some((fi, k, f)) = s.cfg.fault_at {
                if fi == i {
                    store.m().fault = Some((k, f));
                }
            }
            s.nodes.push(Node {
                pid: s.cfg.pids[i],
                store,
                op: None,
                inc: 0,
                broken: 0,
            });
        }
        s
    }
    pub fn boot(&mut self) {
        for i in 0..self.cfg.n() {
            self.build(i);
        }
    }
    pub fn bump(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.stats.entry(k).or_insert(0) += v;
    }
    pub fn stat(&self, k: &str) -> u64 {
        self.stats.get(k).copied().unwrap_or(0)
    }
    pub fn h(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    pub fn t(&mut self, f: impl FnOnce() -> String) {
        if self.cfg.trace {
            let s = format!("[{}] {}", self.step, f());
            self.log.push(s);
        }
    }
    pub fn viol(&mut self, p: &'static str, m: String) {
        self.t(|| format!("!! {} {}", p, m));
        let step = self.step;
        self.mon.violation(p, m, step);
    }
    pub fn idx(&self, pid: NodeId) -> Option<usize> {
        self.cfg.pids.iter().position(|p| *p == pid)
    }
    pub fn alive(&self) -> Vec<usize> {
        (0..self.cfg.n()).filter(|i| self.nodes[*i].op.is_some()).collect()
    }

    /// Runs library code on server i. A panic is a crash of that server.
    pub fn call<R>(&mut self, i: usize, f: impl FnOnce(&mut OmniPaxos<T, Store<T>>) -> R) -> Option<R> {
        #[cfg(feature = "lg")]
        crate::lg::pace(i);
        let mut op = self.nodes[i].op.take()?;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let r = f(&mut op);
            (op, r)
        }));
        match r {
            Ok((op, r)) => {
                self.nodes[i].op = Some(op);
                Some(r)
            }
            Err(e) => {
                self.after_panic(i, e);
                None
            }
        }
    }
    /// A call of the API panicked without an injected fault.
    fn panicked(&mut self, i: usize, tag: &'static str, what: &str) {
        if self.genuine_panic {
            let pid = self.nodes[i].pid;
            let msg = LAST_PANIC.with(|l| l.borrow().clone());
            self.viol(tag, format!("server {}: {} panicked: {}", pid, what, msg));
        }
    }
    fn after_panic(&mut self, i: usize, e: Box<dyn std::any::Any + Send>) {
        let msg = LAST_PANIC.with(|l| l.borrow().clone());
        self.genuine_panic = false;
        if e.downcast_ref::<InjectedCrash>().is_some() {
            self.bump("injected crashes");
            self.t(|| format!("node {} crashed by injection", i));
        } else if msg.contains("InjectedErr") || msg.contains("injected storage error") {
            self.bump("injected write errors that stopped a server");
            self.t(|| format!("node {} stopped on injected error", i));
        } else {
            self.nodes[i].broken += 1;
            self.genuine_panic = true;
            let pid = self.nodes[i].pid;
            self.viol("C26", format!("server {} panicked: {}", pid, msg));
            self.bump("library panics");
        }
        self.nodes[i].op = None;
        self.drop_session_of(i);
        self.drain_store(i);
    }
    fn drop_session_of(&mut self, i: usize) {
        for j in 0..self.cfg.n() {
            self.q[j][i].clear();
            let l = self.q[i][j].len();
            let keep = if l > 0 { self.rng.below(l + 1) } else { 0 };
            self.q[i][j].truncate(keep);
        }
        self.pending.retain(|(a, b)| *a != i && *b != i);
    }
    pub fn drain_store(&mut self, i: usize) {
        let v: Vec<_> = std::mem::take(&mut self.nodes[i].store.m().viol);
        for (p, m) in v {
            let pid = self.nodes[i].pid;
            self.viol(p, format!("server {}: {}", pid, m));
        }
    }

    /// Builds (or rebuilds) server i from its storage.
    pub fn build(&mut self, i: usize) {
        self.nodes[i].op = None;
        let cc = self.cfg.cluster();
        let sc = self.cfg.server(i);
        if let Some(ro) = &self.reopen {
            let old = self.nodes[i].store.m().back.take();
            match catch_unwind(AssertUnwindSafe(|| ro(i, old))) {
                Ok(nb) => self.nodes[i].store.m().back = Some(nb),
                Err(_) => {
                    // A server that cannot start from its own storage any more has lost all of it.
                    let m = LAST_PANIC.with(|l| l.borrow().clone());
                    self.nodes[i].store.m().back = Some(Box::new(MemoryStorage::<T>::default()));
                    self.nodes[i].inc += 1;
                    for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C13", "C14", "C15", "C16", "C19", "C26"] {
                        self.viol(p, format!("the storage of server {} cannot be opened again: {}", i, m));
                    }
                    return;
                }
            }
        }
        let store = self.nodes[i].store.clone();
        let restart = self.nodes[i].inc > 0;
        let via = self.via;
        if restart {
            store.m().compare_all("C18");
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            if via == 1 {
                return cc.build_for_server::<T, Store<T>>(sc, store);
            }
            let mut c = OmniPaxosConfig {
                cluster_config: cc,
                server_config: sc,
            };
            if via == 2 {
                let f = crate::conf::toml_file("s");
                std::fs::write(&f, crate::conf::toml_text(&c)).expect("scratch file");
                let r = OmniPaxosConfig::with_toml(&f);
                let _ = std::fs::remove_file(&f);
                c = r?;
                #[cfg(feature = "lg")]
                {
                    c.server_config.custom_logger = crate::lg::logger(i);
                    c.server_config.logger_file_path = crate::lg::path(i);
                }
            }
            c.build::<T, Store<T>>(store)
        }));
        self.nodes[i].inc += 1;
        match r {
            Ok(Ok(op)) => {
                self.nodes[i].op = Some(op);
                if restart {
                    self.mon_restart(i);
                }
                self.observe(i);
            }
            Ok(Err(e)) => {
                self.viol("C22", format!("valid configuration refused: {:?}", e));
            }
            Err(e) => self.after_panic(i, e),
        }
    }
    pub fn crash(&mut self, i: usize) {
        if self.nodes[i].op.is_some() {
            self.t(|| format!("crash {}", i));
            self.nodes[i].op = None;
            self.drop_session_of(i);
            self.bump("crashes");
        }
    }
    pub fn restart(&mut self, i: usize) {
        if self.nodes[i].op.is_some() {
            return;
        }
        self.t(|| format!("restart {}", i));
        for j in 0..self.cfg.n() {
            self.q[i][j].clear();
            self.q[j][i].clear();
        }
        self.build(i);
        self.bump("restarts");
        let both = self.rng.chance(50);
        for j in 0..self.cfg.n() {
            if j != i && self.up[i][j] && self.nodes[j].op.is_some() {
                self.announce(j, i);
                if both {
                    self.announce(i, j);
                }
            }
        }
    }
    fn announce(&mut self, at: usize, peer: usize) {
        if self.cfg.net == Net::Lossy && self.rng.chance(15) {
            return; // never announced; made up for before progress is expected
        }
        if self.rng.chance(25) {
            self.pending.push((at, peer));
        } else {
            self.reconnected(at, peer);
        }
    }
    pub fn reconnected(&mut self, at: usize, peer: usize) {
        let pid = self.cfg.pids[peer];
        self.t(|| format!("reconnected at {} peer {}", at, peer));
        self.call(at, |op| op.reconnected(pid));
        self.observe(at);
    }
    pub fn cut(&mut self, i: usize, j: usize) {
        if i != j && self.up[i][j] {
            self.t(|| format!("cut {} {}", i, j));
            self.up[i][j] = false;
            self.up[j][i] = false;
            self.q[i][j].clear();
            self.q[j][i].clear();
            self.pending.retain(|(a, b)| !((*a == i && *b == j) || (*a == j && *b == i)));
            self.bump("cuts");
        }
    }
    pub fn heal(&mut self, i: usize, j: usize) {
        if i != j && !self.up[i][j] {
            self.t(|| format!("heal {} {}", i, j));
            self.up[i][j] = true;
            self.up[j][i] = true;
            self.bump("heals");
            let (a, b) = if self.rng.chance(50) { (i, j) } else { (j, i) };
            if self.nodes[a].op.is_some() && self.nodes[b].op.is_some() {
                self.announce(a, b);
                self.announce(b, a);
            }
        }
    }
    /// Takes the outgoing messages of server i and puts them on the links.
    pub fn send(&mut self, i: usize) {
        let mut buf: Vec<Message<T>> = vec![];
        // Some users still have unsent messages in the buffer that they pass.
        let kept = self.cfg.kept_buffer && self.sends % 3 == 0;
        self.sends += 1;
        if kept {
            buf.push(Message::BLE(BLEMessage { from: 0, to: 0, msg: HeartbeatMsg::Request(HeartbeatRequest { round: self.sends as u32 }) }));
        }
        if self.call(i, |op| op.take_outgoing_messages(&mut buf)).is_none() {
            return;
        }
        if kept {
            let ours = self.sends as u32;
            match buf.first() {
                Some(Message::BLE(BLEMessage { from: 0, to: 0, msg: HeartbeatMsg::Request(r) })) if r.round == ours => (),
                x => {
                    let m = format!("taking the outgoing messages replaced the unsent message in the caller's buffer by {:?}", x.map(msg_kind));
                    self.viol("C26", m.clone());
                    self.viol("C09", m);
                }
            }
            buf.remove(0);
            self.bump("takes into a filled buffer");
        }
        for m in buf {
            self.on_emit(i, &m);
            let kind = msg_kind(&m);
            self.bump(kind);
            let m = match self.cfg.codec {
                Codec::None => m,
                c => match self.round_trip(m, c) {
                    Some(m) => m,
                    None => continue,
                },
            };
            if m.get_sender() != self.nodes[i].pid {
                let msg = format!("server {} emits a message of sender {}: {}", self.nodes[i].pid, m.get_sender(), crate::monitor::brief(&m));
                self.viol("C23", msg);
            }
            let Some(j) = self.idx(m.get_receiver()).filter(|j| *j != i) else {
                let msg = format!("server {} emits a message to {}, which is not another server of the cluster: {}", self.nodes[i].pid, m.get_receiver(), crate::monitor::brief(&m));
                self.viol("C23", msg);
                continue;
            };
            if self.up[i][j] && self.nodes[j].op.is_some() && !self.storm {
                self.q[i][j].push_back(m);
            }
            if self.q[i][j].len() > 30_000 && !self.storm {
                // Messages multiply. The rest of the run is of no use.
                self.storm = true;
                for a in 0..self.cfg.n() {
                    for b in 0..self.cfg.n() {
                        self.q[a][b].clear();
                    }
                }
                let m = format!("messages multiply without end, the latest is {}", kind);
                self.viol("C09", m.clone());
                self.viol("C26", m);
            }
        }
    }
    pub fn deliver(&mut self, i: usize, j: usize) -> bool {
        let Some(m) = self.q[i][j].pop_front() else {
            return false;
        };
        if self.nodes[j].op.is_none() {
            return true;
        }
        let kind = msg_kind(&m);
        self.t(|| format!("deliver {}->{} {}", i, j, crate::monitor::brief(&m)));
        self.h((i as u64) << 8 | (j as u64) << 4 | kind.len() as u64 | (kind.as_bytes()[0] as u64) << 16);
        if self.cfg.digest {
            let b = bincode::serialize(&m).unwrap_or_default();
            let x = b.iter().fold(0xcbf29ce484222325u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3));
            self.h(x);
        }
        match &m {
            Message::BLE(BLEMessage { msg: HeartbeatMsg::Request(_), .. }) => {
                let behind = self.q[i][j].iter().filter(|m| matches!(m, Message::BLE(BLEMessage { msg: HeartbeatMsg::Request(_), .. }))).count();
                self.mon.beats.delivered_request(i, j, behind as u64);
            }
            Message::BLE(_) => self.mon.beats.delivered_reply(i, j, self.cfg.election),
            Message::SequencePaxos(PaxosMessage { msg: PaxosMsg::ProposalForward(es), .. }) => {
                let promise = self.nodes[j].op.as_ref().unwrap().get_promise();
                let leads = promise.pid == self.nodes[j].pid;
                let key = (j, self.nodes[j].inc, bk(promise), i);
                for e in es {
                    self.mon.leader_of.remove(&e.id());
                    if leads {
                        self.mon.leader_append(key, e.id());
                    }
                }
            }
            _ => (),
        }
        let pre = self.pre_deliver(j, &m);
        self.call(j, |op| op.handle_incoming(m));
        self.post_deliver(j, pre);
        self.observe(j);
        self.bump("deliveries");
        true
    }
    pub fn tick(&mut self, i: usize) {
        if self.nodes[i].op.is_some() {
            self.mon.beats.ticked(i, self.cfg.election);
        }
        self.call(i, |op| op.tick());
        self.h(0x7000 + i as u64);
        self.bump("ticks");
        self.observe(i);
    }
    pub fn append(&mut self, i: usize) -> Option<u64> {
        if self.nodes[i].op.is_none() {
            return None;
        }
        let id = self.next_id;
        self.next_id += 1;
        self.append_id(i, id)
    }
    /// Returns the id when the append was accepted.
    pub fn append_id(&mut self, i: usize, id: u64) -> Option<u64> {
        let e = T::make(id);
        let had_ss = self.nodes[i].store.i().sh.stopsign.is_some();
        let st = self.nodes[i].op.as_ref().map(|op| (op.get_current_leader(), op.get_promise()));
        self.mon.appended.insert(id);
        let Some(r) = self.call(i, |op| op.append(e.clone())) else {
            self.panicked(i, "C13", "append");
            return None;
        };
        self.h(0x8000 + i as u64);
        let mut ok = None;
        match r {
            Ok(()) => {
                self.bump("appends");
                self.t(|| format!("append {} id {}", i, id));
                ok = Some(id);
                if had_ss {
                    self.viol("C13", format!("append accepted on server {} although its log holds a reconfiguration", i));
                }
                if let Some((Some((l, _)), promise)) = st {
                    if l == self.nodes[i].pid {
                        let key = (i, self.nodes[i].inc, bk(promise), i);
                        self.mon.leader_append(key, id);
                        self.bump("leader appends");
                    }
                }
            }
            Err(ProposeErr::PendingReconfigEntry(x)) => {
                self.bump("appends refused");
                self.mon.refused.insert(id);
                self.mon.c13_checks += 1;
                if x != e {
                    self.viol("C13", "refused entry not returned intact".into());
                }
                if !had_ss {
                    self.viol("C13", format!("append refused on server {} although its log holds no reconfiguration", i));
                }
            }
            Err(other) => self.viol("C13", format!("append answered with {:?}", other)),
        }
        self.observe(i);
        ok
    }
    pub fn rand_config(&mut self) -> ClusterConfig {
        let n = self.rng.range(2, 5);
        let mut nodes: Vec<NodeId> = (1..=9).collect();
        self.rng.shuffle(&mut nodes);
        nodes.truncate(n);
        let fq = if self.rng.chance(30) && n >= 3 {
            Some(FlexibleQuorum {
                read_quorum_size: n,
                write_quorum_size: 2,
            })
        } else {
            None
        };
        ClusterConfig {
            configuration_id: self.cfg.config_id + 1,
            nodes,
            flexible_quorum: fq,
        }
    }
    /// Returns the marker id when the request was accepted.
    pub fn reconfigure(&mut self, i: usize, invalid: bool) -> Option<u64> {
        if self.nodes[i].op.is_none() {
            return None;
        }
        let mut cc = self.rand_config();
        if invalid {
            match self.rng.below(4) {
                0 => cc.nodes.truncate(1),
                1 => cc.configuration_id = 0,
                2 => {
                    cc.flexible_quorum = Some(FlexibleQuorum {
                        read_quorum_size: 1,
                        write_quorum_size: cc.nodes.len(),
                    })
                }
                _ => {
                    cc.flexible_quorum = Some(FlexibleQuorum {
                        read_quorum_size: cc.nodes.len() + 1,
                        write_quorum_size: 2,
                    })
                }
            }
        }
        let meta = match self.rng.below(3) {
            0 => None,
            1 => Some(vec![]),
            _ => Some(vec![self.rng.next() as u8, self.step as u8, 7]),
        };
        let ss = omnipaxos::storage::StopSign::with(cc.clone(), meta.clone());
        let id = crate::store::ss_id(&ss);
        let had_ss = self.nodes[i].store.i().sh.stopsign.is_some();
        if !invalid && !had_ss {
            self.mon.ss_requested.insert(id);
        }
        let Some(r) = self.call(i, |op| op.reconfigure(cc.clone(), meta.clone())) else {
            self.panicked(i, "C13", "reconfigure");
            return None;
        };
        self.t(|| format!("reconfigure at {} invalid {} -> {}", i, invalid, r.is_ok()));
        self.mon.c13_checks += 1;
        self.h(0x9000 + i as u64);
        let mut ok = None;
        match r {
            Ok(()) => {
                self.bump("reconfigure accepted");
                if had_ss || invalid {
                    self.viol("C13", format!("reconfiguration request accepted on server {} (holds marker: {}, invalid: {})", i, had_ss, invalid));
                }
                ok = Some(id);
            }
            Err(ProposeErr::PendingReconfigConfig(c, m)) => {
                self.bump("reconfigure refused");
                if c != cc || m != meta {
                    self.viol("C13", "refused configuration not returned intact".into());
                }
                if !had_ss {
                    self.viol("C13", format!("reconfiguration refused on server {} although its log holds none", i));
                }
            }
            Err(ProposeErr::ConfigError(_, c, m)) => {
                self.bump("reconfigure invalid");
                if c != cc || m != meta {
                    self.viol("C13", "refused invalid configuration not returned intact".into());
                }
                if !invalid {
                    self.viol("C13", format!("valid configuration {:?} refused as invalid", cc));
                }
            }
            Err(e) => self.viol("C13", format!("reconfigure answered with {:?}", e)),
        }
        self.observe(i);
        ok
    }
    pub fn trim(&mut self, i: usize, idx: Option<usize>) -> Option<bool> {
        self.nodes[i].op.as_ref()?;
        let before = {
            let s = self.nodes[i].store.i();
            (s.sh.compacted, s.sh.decided, s.sh.accepted(), s.version, s.sh.stopsign.is_some() && s.sh.decided == s.sh.accepted())
        };
        let promise = self.nodes[i].op.as_ref().unwrap().get_promise();
        let leader = self.nodes[i].op.as_ref().unwrap().get_current_leader();
        let fired = self.nodes[i].store.i().fired;
        let Some(r) = self.call(i, |op| op.trim(idx)) else {
            self.panicked(i, "C15", "trim");
            return None;
        };
        if self.nodes[i].store.i().fired != fired {
            self.observe(i);
            return None;
        }
        self.t(|| format!("trim at {} {:?} -> {:?}", i, idx, r));
        self.bump("trim calls");
        self.h(0xa000 + i as u64);
        let after = {
            let s = self.nodes[i].store.i();
            (s.sh.compacted, s.version)
        };
        let min_stored = (0..self.cfg.n()).map(|j| self.nodes[j].store.i().sh.accepted()).min().unwrap();
        self.mon.c15_checks += 1;
        let mut ok = false;
        match r {
            Ok(()) => {
                ok = true;
                self.bump("trims ok");
                if leader.map(|l| l.0) != Some(self.nodes[i].pid) {
                    self.viol("C15", format!("trim succeeded on server {} which is not the leader", i));
                }
                if let Some(x) = idx {
                    if x > before.1 {
                        self.viol("C15", format!("trim({}) succeeded beyond the decided index {}", x, before.1));
                    }
                    let want = if x == before.1 && before.4 { x - 1 } else { x };
                    if after.0 != before.0.max(want) {
                        self.viol("C15", format!("trim({}) left compacted index {} (was {})", x, after.0, before.0));
                    }
                }
                if after.0 > before.0 {
                    self.bump("trims effective");
                }
            }
            Err(e) => {
                if after.1 != before.3 {
                    self.viol("C15", format!("refused trim changed the storage: {:?}", e));
                }
                match e {
                    CompactionErr::NotCurrentLeader(l) => {
                        if l != promise.pid {
                            self.viol("C15", format!("trim refused naming leader {} instead of {}", l, promise.pid));
                        }
                    }
                    CompactionErr::NotAllDecided(m) => {
                        if m > min_stored {
                            self.viol("C15", format!("trim refused reporting {} although a server stores only {}", m, min_stored));
                        }
                        if let Some(x) = idx {
                            if x <= m {
                                self.viol("C15", format!("trim({}) refused although {} is reported as allowed", x, m));
                            }
                        }
                    }
                    CompactionErr::UndecidedIndex(d) => {
                        if d != before.1 {
                            self.viol("C15", format!("trim refused reporting decided index {} instead of {}", d, before.1));
                        }
                    }
                    CompactionErr::TrimmedIndex(_) => self.viol("C15", "trim refused with TrimmedIndex".into()),
                }
            }
        }
        self.observe(i);
        Some(ok)
    }
    pub fn snapshot(&mut self, i: usize, idx: Option<usize>, local: bool) {
        if self.nodes[i].op.is_none() {
            return;
        }
        let (comp, dec, ssdec, ver) = {
            let s = self.nodes[i].store.i();
            (s.sh.compacted, s.sh.decided, s.sh.stopsign.is_some() && s.sh.decided == s.sh.accepted(), s.version)
        };
        let fired = self.nodes[i].store.i().fired;
        let Some(r) = self.call(i, |op| op.snapshot(idx, local)) else {
            self.panicked(i, "C14", "snapshot");
            return;
        };
        if self.nodes[i].store.i().fired != fired {
            return;
        }
        self.t(|| format!("snapshot at {} {:?} local {} -> {:?}", i, idx, local, r));
        self.bump("snapshot calls");
        self.h(0xb000 + i as u64);
        self.mon.c14_checks += 1;
        let (comp2, ver2) = {
            let s = self.nodes[i].store.i();
            (s.sh.compacted, s.version)
        };
        let ld = if ssdec { dec - 1 } else { dec };
        let want = match idx {
            None => Ok(ld),
            Some(x) if x > dec => Err(dec),
            Some(x) if x == dec => Ok(ld),
            Some(x) => Ok(x),
        };
        match (r, want) {
            (Ok(()), Ok(t)) => {
                self.bump("snapshots ok");
                if comp2 != comp.max(t) {
                    self.viol("C14", format!("snapshot({:?}) left compacted index {} (was {}, decided {})", idx, comp2, comp, dec));
                }
                if comp2 > comp {
                    self.bump("snapshots effective");
                }
            }
            (Err(CompactionErr::UndecidedIndex(d)), Err(w)) => {
                self.bump("snapshots refused");
                if d != w {
                    self.viol("C14", format!("snapshot beyond decided refused reporting {} instead of {}", d, w));
                }
                if ver2 != ver {
                    self.viol("C14", "refused snapshot changed the storage".into());
                }
            }
            (r, w) => self.viol("C14", format!("snapshot({:?}) answered {:?}, expected {:?}", idx, r, w)),
        }
        self.observe(i);
    }

    /// Delivers everything that can be delivered (with sends in between). False on message storm.
    pub fn drain(&mut self) -> bool {
        let mut budget = 4000 * self.cfg.n();
        loop {
            for i in 0..self.cfg.n() {
                self.send(i);
            }
            let mut links: Vec<(usize, usize)> = vec![];
            for i in 0..self.cfg.n() {
                for j in 0..self.cfg.n() {
                    if !self.q[i][j].is_empty() && !self.slow[i][j] {
                        links.push((i, j));
                    }
                }
            }
            if links.is_empty() {
                return true;
            }
            self.rng.shuffle(&mut links);
            for (i, j) in links {
                let l = self.q[i][j].len();
                if l == 0 {
                    continue;
                }
                let k = self.rng.range(1, l);
                for _ in 0..k {
                    if !self.deliver(i, j) {
                        break;
                    }
                    if budget == 0 {
                        self.bump("message storms");
                        return false;
                    }
                    budget -= 1;
                }
            }
        }
    }
    /// One synchronous round: every live server ticks once, then all messages are delivered.
    pub fn round(&mut self) -> bool {
        let mut order = self.alive();
        self.rng.shuffle(&mut order);
        let eager = self.rng.chance(50);
        for i in order {
            self.tick(i);
            if eager {
                self.send(i);
            }
        }
        self.step += 1;
        self.bump("rounds");
        self.drain()
    }

    fn weights(&mut self) -> Vec<(Act, u32)> {
        let c = self.cfg.clone();
        let r = &mut self.rng;
        let mut w = vec![(Act::Deliver, 60), (Act::Send, 25), (Act::Tick, *r.pick(&[3, 10, 25]))];
        w.push((Act::Append, *r.pick(&[0, 3, 10])));
        w.push((Act::Burst, if c.burst.1 > 100 { *r.pick(&[1, 4]) } else { *r.pick(&[0, 0, 2]) }));
        w.push((Act::Settle, *r.pick(&[0, 1, 3])));
        w.push((Act::Notify, 6));
        if r.chance(60) {
            w.push((Act::Cut, *r.pick(&[0, 1, 3])));
            w.push((Act::Isolate, *r.pick(&[0, 1, 2])));
            w.push((Act::Heal, *r.pick(&[0, 2, 4])));
            w.push((Act::HealAll, *r.pick(&[0, 1])));
        }
        if c.crashes && r.chance(60) {
            w.push((Act::Crash, *r.pick(&[0, 1, 3])));
            w.push((Act::Restart, *r.pick(&[1, 4, 8])));
        }
        if c.net != Net::Sessions {
            w.push((Act::Drop, *r.pick(&[0, 2, 8])));
        }
        match c.comp {
            Comp::None => (),
            Comp::Trim => w.push((Act::Trim, *r.pick(&[0, 2, 6]))),
            Comp::Snap => w.push((Act::Snapshot, *r.pick(&[0, 1, 4]))),
            Comp::Mixed => {
                w.push((Act::Trim, *r.pick(&[0, 2])));
                w.push((Act::Snapshot, *r.pick(&[0, 2])));
            }
        }
        if c.reconfig && r.chance(40) {
            w.push((Act::Reconfigure, *r.pick(&[0, 1, 2])));
        }
        if c.elections && r.chance(50) {
            w.push((Act::BecomeLeader, *r.pick(&[0, 1, 4])));
            w.push((Act::SetPriority, *r.pick(&[0, 0, 1])));
        }
        if c.faults {
            w.push((Act::StoreFault, *r.pick(&[0, 1, 2])));
        }
        w.retain(|x| x.1 > 0);
        w
    }
    /// The hostile part of a run.
    pub fn chaos(&mut self) {
        let total = self.cfg.steps;
        let mut left = 0usize;
        let mut w: Vec<(Act, u32)> = vec![];
        let mut sum = 0u32;
        for _ in 0..total {
            if self.storm {
                return;
            }
            if left == 0 {
                w = self.weights();
                sum = w.iter().map(|x| x.1).sum();
                left = self.rng.range(15, 90);
                self.slow_links(25);
            }
            left -= 1;
            self.step += 1;
            let mut x = self.rng.below(sum as usize) as u32;
            let mut act = w[0].0;
            for (a, k) in &w {
                if x < *k {
                    act = *a;
                    break;
                }
                x -= k;
            }
            self.act(act);
        }
        self.slow_links(0);
    }
    /// With the given probability delays the messages of some links from now on, otherwise of none.
    pub fn slow_links(&mut self, pct: u32) {
        let n = self.cfg.n();
        let some = pct > 0 && self.rng.chance(pct);
        for i in 0..n {
            for j in 0..n {
                self.slow[i][j] = some && self.rng.chance(20);
            }
        }
        if some {
            self.bump("periods with delayed links");
        }
    }
    /// A live server, with a bias towards the one that believes to be leader.
    pub fn some_node(&mut self) -> Option<usize> {
        let a = self.alive();
        if a.is_empty() {
            return None;
        }
        if self.rng.chance(45) {
            let l: Vec<usize> = a
                .iter()
                .copied()
                .filter(|i| {
                    let op = self.nodes[*i].op.as_ref().unwrap();
                    op.get_current_leader().map(|l| l.0) == Some(self.nodes[*i].pid)
                })
                .collect();
            if !l.is_empty() {
                return Some(*self.rng.pick(&l));
            }
        }
        Some(*self.rng.pick(&a))
    }
    fn act(&mut self, act: Act) {
        let n = self.cfg.n();
        match act {
            Act::Deliver => {
                let links: Vec<(usize, usize)> = (0..n)
                    .flat_map(|i| (0..n).map(move |j| (i, j)))
                    .filter(|(i, j)| !self.q[*i][*j].is_empty() && !self.slow[*i][*j])
                    .collect();
                if links.is_empty() {
                    let a = self.alive();
                    for i in a {
                        self.send(i);
                    }
                } else {
                    let (i, j) = *self.rng.pick(&links);
                    let k = if self.rng.chance(30) { self.q[i][j].len() } else { 1 };
                    for _ in 0..k {
                        self.deliver(i, j);
                    }
                }
            }
            Act::Send => {
                if let Some(i) = self.some_node() {
                    self.send(i);
                }
            }
            Act::Tick => {
                if let Some(i) = self.some_node() {
                    self.tick(i);
                }
            }
            Act::Append => {
                if let Some(i) = self.some_node() {
                    self.append(i);
                }
            }
            Act::Burst => {
                if let Some(i) = self.some_node() {
                    let (lo, hi) = self.cfg.burst;
                    for _ in 0..self.rng.range(lo, hi) {
                        self.append(i);
                    }
                }
            }
            Act::Cut => {
                let (i, j) = (self.rng.below(n), self.rng.below(n));
                self.cut(i, j);
            }
            Act::Heal => {
                let (i, j) = (self.rng.below(n), self.rng.below(n));
                self.heal(i, j);
            }
            Act::Isolate => {
                if let Some(i) = self.some_node() {
                    for j in 0..n {
                        self.cut(i, j);
                    }
                }
            }
            Act::HealAll => {
                for i in 0..n {
                    for j in 0..i {
                        self.heal(i, j);
                    }
                }
            }
            Act::Crash => {
                if let Some(i) = self.some_node() {
                    self.crash(i);
                }
            }
            Act::Restart => {
                let d: Vec<usize> = (0..n).filter(|i| self.nodes[*i].op.is_none()).collect();
                if !d.is_empty() {
                    let i = *self.rng.pick(&d);
                    self.restart(i);
                }
            }
            Act::Drop => {
                let only = self.cfg.net == Net::Handshake;
                let links: Vec<(usize, usize)> = (0..n)
                    .flat_map(|i| (0..n).map(move |j| (i, j)))
                    .filter(|(i, j)| {
                        self.q[*i][*j].front().map(|m| !only || resent_by_library(msg_kind(m))).unwrap_or(false)
                    })
                    .collect();
                if !links.is_empty() {
                    let (i, j) = *self.rng.pick(&links);
                    let m = self.q[i][j].pop_front().unwrap();
                    self.t(|| format!("lose {}->{} {}", i, j, crate::monitor::brief(&m)));
                    self.bump("silent losses");
                }
            }
            Act::Trim => {
                if let Some(i) = self.some_node() {
                    self.compact_by(i, true);
                }
            }
            Act::Snapshot => {
                if let Some(i) = self.some_node() {
                    self.compact_by(i, false);
                }
            }
            Act::Reconfigure => {
                if let Some(i) = self.some_node() {
                    let invalid = self.rng.chance(30);
                    self.reconfigure(i, invalid);
                }
            }
            Act::BecomeLeader => {
                let a = self.alive();
                if !a.is_empty() {
                    let i = *self.rng.pick(&a);
                    self.t(|| format!("try_become_leader {}", i));
                    self.call(i, |op| op.try_become_leader());
                    self.bump("takeover requests");
                    self.observe(i);
                }
            }
            Act::SetPriority => {
                let a = self.alive();
                if !a.is_empty() {
                    let i = *self.rng.pick(&a);
                    let p = self.rng.below(5) as u32;
                    self.t(|| format!("set_priority {} {}", i, p));
                    self.call(i, |op| op.set_priority(p));
                    self.observe(i);
                }
            }
            Act::Settle => {
                let k = self.rng.range(1, 4 + 2 * self.cfg.election as usize);
                for _ in 0..k {
                    self.round();
                }
            }
            Act::StoreFault => {
                let a = self.alive();
                if !a.is_empty() {
                    let i = *self.rng.pick(&a);
                    let f = *self.rng.pick(&[Fault::CrashBefore, Fault::CrashAfter, Fault::Err]);
                    let k = self.rng.range(1, 8) as u64;
                    let mut s = self.nodes[i].store.m();
                    if s.fault.is_none() {
                        let at = s.writes + k;
                        s.fault = Some((at, f));
                    }
                }
            }
            Act::Notify => {
                if !self.pending.is_empty() {
                    let k = self.rng.below(self.pending.len());
                    let (a, b) = self.pending.remove(k);
                    self.reconnected(a, b);
                }
            }
        }
    }
    pub fn compact(&mut self, i: usize) {
        let trim = match self.cfg.comp {
            Comp::None => return,
            Comp::Trim => true,
            Comp::Snap => false,
            Comp::Mixed => self.rng.chance(50),
        };
        self.compact_by(i, trim);
    }
    fn compact_by(&mut self, i: usize, trim: bool) {
        if self.nodes[i].op.is_none() {
            return;
        }
        let end = self.nodes[i].store.i().sh.accepted();
        let idx = match self.rng.below(4) {
            0 => None,
            1 => Some(self.nodes[i].store.i().sh.decided),
            _ => Some(self.rng.below(end + 3)),
        };
        if trim {
            self.trim(i, idx);
        } else {
            let local = self.rng.chance(50);
            self.snapshot(i, idx, local);
        }
    }
    pub fn flush_pending(&mut self) {
        while let Some((a, b)) = self.pending.pop() {
            self.reconnected(a, b);
        }
    }
    /// Ends the hostile part: everything runs, every link works, everything lost is announced.
    pub fn stabilize(&mut self) {
        self.stabilize_as(true);
    }
    pub fn stabilize_as(&mut self, announce: bool) {
        let n = self.cfg.n();
        self.slow_links(0);
        for i in 0..n {
            self.nodes[i].store.m().fault = None;
        }
        for i in 0..n {
            if self.nodes[i].op.is_none() {
                self.restart(i);
            }
        }
        for i in 0..n {
            for j in 0..i {
                self.heal(i, j);
            }
        }
        self.flush_pending();
        if announce && self.cfg.net == Net::Lossy {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        self.reconnected(i, j);
                    }
                }
            }
        }
        self.t(|| "--- stable ---".into());
    }
    /// The leader everyone agrees on and whose election everyone completed.
    pub fn agreed_leader(&self) -> Option<(usize, Ballot)> {
        let mut l: Option<(NodeId, Ballot)> = None;
        for i in 0..self.cfg.n() {
            let op = self.nodes[i].op.as_ref()?;
            let (p, acc) = op.get_current_leader()?;
            if !acc {
                return None;
            }
            let b = op.get_promise();
            match l {
                None => l = Some((p, b)),
                Some(x) if x == (p, b) => (),
                _ => return None,
            }
        }
        l.and_then(|(p, b)| self.idx(p).map(|i| (i, b)))
    }
    pub fn all_decided(&self) -> bool {
        let want = self.mon.g.len();
        self.nodes.iter().all(|n| n.op.as_ref().map(|o| o.get_decided_idx() == want).unwrap_or(false))
    }
    /// Runs rounds until all servers have followed one leader for a few elections.
    pub fn agree(&mut self, tag: &'static str) -> Option<(usize, Ballot)> {
        let b1 = self.cfg.bound_leader();
        let mut k = 0;
        let mut since = 0;
        let mut last = None;
        let need = 3 * self.cfg.election + 2;
        while k < b1 {
            if !self.round() {
                self.viol(tag, "servers exchange messages for ever in a stable period".into());
                return None;
            }
            k += 1;
            let now = self.agreed_leader();
            if now.is_some() && now == last && self.settled_on_marker() {
                since += 1;
                if since >= need {
                    break;
                }
            } else {
                since = 0;
            }
            last = now;
        }
        self.mon.max_leader_rounds = self.mon.max_leader_rounds.max(k as u64 * 1000 / b1 as u64);
        if since >= need {
            self.bump("stable leaders");
            return self.agreed_leader();
        }
        let st: Vec<String> = self
            .nodes
            .iter()
            .map(|n| match &n.op {
                Some(o) => format!("{}:{:?}/{:?}", n.pid, o.get_current_leader(), o.get_promise().n),
                None => format!("{}:down", n.pid),
            })
            .collect();
        self.viol(tag, format!("no leader agreed within {} ticks of stability: {}", b1, st.join(" ")));
        None
    }
    /// Progress part of a run. Returns false if the cluster failed to make progress.
    pub fn finish(&mut self) -> bool {
        self.stabilize();
        let Some((l, bal)) = self.agree("C09") else {
            return false;
        };
        // What the leader's log holds is decided by all, also when nothing new arrives.
        let n = self.cfg.n();
        if self.rng.chance(50) {
            let b = self.cfg.bound_decide();
            let mut k = 0;
            let quiet = |s: &Self| {
                let acc = s.nodes[l].store.i().sh.accepted();
                s.nodes.iter().all(|n| n.op.as_ref().map(|o| o.get_decided_idx() >= acc).unwrap_or(false))
            };
            while k < b && !quiet(self) {
                if !self.round() {
                    self.viol("C09", "servers exchange messages for ever in a stable period".into());
                    return false;
                }
                k += 1;
            }
            if !quiet(self) {
                let acc = self.nodes[l].store.i().sh.accepted();
                let dec: Vec<usize> = self.nodes.iter().map(|n| n.op.as_ref().map(|o| o.get_decided_idx()).unwrap_or(0)).collect();
                self.viol("C09", format!("the log of the leader holds {} positions, {} ticks later without appends the servers have decided {:?}", acc, b, dec));
                return false;
            }
            self.bump("caught up without new appends");
        }
        // New entries at every server.
        let mut want: Vec<(usize, u64)> = vec![];
        let sealed = self.nodes[l].store.i().sh.stopsign.is_some();
        let mut order: Vec<usize> = (0..n).collect();
        self.rng.shuffle(&mut order);
        let per = self.rng.range(1, 3);
        for i in order {
            for _ in 0..per {
                if let Some(id) = self.append(i) {
                    if !sealed {
                        want.push((i, id));
                    }
                }
            }
            if self.rng.chance(30) {
                self.send(i);
            }
        }
        let b2 = self.cfg.bound_decide();
        let mut k = 0;
        let done = |s: &Self| want.iter().all(|(_, id)| s.mon.g_pos.contains_key(id)) && s.all_decided() && s.settled_on_marker();
        while k < b2 && !done(self) {
            if !self.round() {
                self.viol("C09", "servers exchange messages for ever in a stable period".into());
                return false;
            }
            k += 1;
        }
        self.mon.max_decide_rounds = self.mon.max_decide_rounds.max(k as u64 * 1000 / b2 as u64);
        let mut ok = true;
        for (i, id) in &want {
            if !self.mon.g_pos.contains_key(id) {
                let pid = self.nodes[*i].pid;
                self.viol("C09", format!("entry {} appended to server {} in a stable period not decided within {} ticks", id, pid, b2));
                ok = false;
                break;
            }
        }
        if ok && !self.all_decided() {
            let st: Vec<String> = self
                .nodes
                .iter()
                .map(|n| n.op.as_ref().map(|o| o.get_decided_idx().to_string()).unwrap_or("down".into()))
                .collect();
            self.viol("C09", format!("servers did not catch up with {} decided positions: {}", self.mon.g.len(), st.join(" ")));
            ok = false;
        }
        if !self.settled_on_marker() {
            self.viol("C13", "the leader's log holds a reconfiguration but it is not decided and reported by all".into());
            ok = false;
        }
        if let Some((l2, b2)) = self.agreed_leader() {
            if (l2, b2) != (l, bal) {
                self.viol("C11", format!("leader changed from {:?} to {:?} in a stable period", bal, b2));
            }
        }
        self.add("stable entries", want.len() as u64);
        if ok && self.cfg.ui_pct >= 50 {
            self.status_at_rest(bal);
        }
        ok
    }
    /// C25: the dashboard state of every server in a settled cluster, before and after a server is gone.
    fn status_at_rest(&mut self, bal: Ballot) {
        let n = self.cfg.n();
        for _ in 0..(self.cfg.flush + 2 * self.cfg.election + 2) {
            if !self.round() {
                return;
            }
        }
        let lead = match self.agreed_leader() {
            Some((l, b)) if b == bal => l,
            _ => return,
        };
        let mut gone: Option<usize> = None;
        for phase in 0..2 {
            if phase == 1 {
                let x = self.rng.below(n);
                if self.rng.chance(50) {
                    self.crash(x);
                } else {
                    for j in 0..n {
                        if j != x {
                            self.cut(x, j);
                        }
                    }
                }
                gone = Some(x);
                for _ in 0..(2 * self.cfg.election + 2) {
                    if !self.round() {
                        return;
                    }
                }
            }
            self.bump("status at rest");
            for i in 0..n {
                let Some(op) = self.nodes[i].op.as_ref() else { continue };
                let u = op.get_ui_states();
                let pid = self.nodes[i].pid;
                let mut want: Vec<NodeId> = (0..n).filter(|j| *j != i && Some(*j) != gone && Some(i) != gone).map(|j| self.nodes[j].pid).collect();
                want.sort();
                for (what, hb) in [("heartbeats", &u.heartbeats), ("cluster state", &u.cluster_state.heartbeats)] {
                    let mut got: Vec<NodeId> = hb.iter().map(|h| h.ballot.pid).collect();
                    got.sort();
                    if got != want {
                        self.mon.late.push(("C25", format!("server {} shows the connected peers {:?} ({}), they are {:?}", pid, got, what, want)));
                    }
                    for h in hb.iter() {
                        let Some(j) = self.idx(h.ballot.pid) else { continue };
                        let peer = self.nodes[j].op.as_ref().map(|o| (o.get_ui_states().current_ballot, o.get_promise()));
                        if phase == 0 && peer != Some((h.ballot, h.leader)) {
                            self.mon.late.push(("C25", format!("server {} shows server {} with ballot {:?} and leader {:?}, it has {:?}", pid, h.ballot.pid, h.ballot, h.leader, peer)));
                        }
                    }
                }
                if phase == 0 && i == lead {
                    if u.current_ballot != bal {
                        self.mon.late.push(("C25", format!("leader {} shows ballot {:?} but leads in {:?}", pid, u.current_ballot, bal)));
                    }
                    let all = self.nodes[i].store.i().sh.accepted();
                    for j in 0..n {
                        let q = self.nodes[j].pid;
                        let a = u.cluster_state.accepted_indexes.get(q as usize).copied();
                        if a != Some(all) {
                            self.mon.late.push(("C25", format!("leader {} shows {:?} accepted at server {}, all servers have {}", pid, a, q, all)));
                        }
                    }
                }
            }
            for (p, m) in std::mem::take(&mut self.mon.late) {
                self.viol(p, m);
            }
        }
    }
    /// If the agreed leader's log holds a reconfiguration, all servers report it as decided.
    pub fn settled_on_marker(&self) -> bool {
        let Some((l, _)) = self.agreed_leader() else {
            return false;
        };
        if self.nodes[l].store.i().sh.stopsign.is_none() {
            return true;
        }
        self.nodes.iter().all(|n| n.op.as_ref().map(|o| o.is_reconfigured().is_some()).unwrap_or(false))
    }
    pub fn end_checks(&mut self) {
        for i in 0..self.cfg.n() {
            self.nodes[i].store.m().compare_all("C17");
            self.drain_store(i);
        }
    }
}

/// The printed message, with the parts of a cache (hash maps among them) in a fixed order.
fn canonical(s: &str) -> String {
    match s.find("unicache: ") {
        Some(k) if cfg!(feature = "uc") => {
            let mut t: Vec<&str> = s[k..].split(|c: char| !c.is_alphanumeric()).filter(|t| !t.is_empty()).collect();
            t.sort_unstable();
            format!("{}{}", &s[..k], t.join(" "))
        }
        _ => s.to_string(),
    }
}
impl<T: Val> Sim<T> {
    fn round_trip(&mut self, m: Message<T>, c: Codec) -> Option<Message<T>> {
        let before = format!("{:?}", m);
        let r: Result<Message<T>, String> = match c {
            Codec::Bincode => bincode::serialize(&m)
                .map_err(|e| e.to_string())
                .and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())),
            _ => serde_json::to_string(&m)
                .map_err(|e| e.to_string())
                .and_then(|b| serde_json::from_str(&b).map_err(|e| e.to_string())),
        };
        self.mon.c23_checks += 1;
        match r {
            Ok(x) => {
                let after = format!("{:?}", x);
                if canonical(&after) != canonical(&before) {
                    self.viol("C23", format!("message changed by {:?}: {} became {}", c, before, after));
                }
                Some(x)
            }
            Err(e) => {
                self.viol("C23", format!("message {} failed to round trip by {:?}: {}", before, c, e));
                None
            }
        }
    }
}
