//! Storage wrapper handed to the servers: the real back end plus an independent shadow model.
//! It hooks every storage call: compares reads with the model, checks that every state a crash
//! could expose is self-consistent, counts writes and injects crashes and write errors.
use crate::entry::Val;
use omnipaxos::{
    ballot_leader_election::Ballot,
    storage::{StopSign, Storage, StorageOp, StorageResult},
};
use std::{
    cell::{Ref, RefCell, RefMut},
    collections::{HashMap, HashSet},
    rc::Rc,
};

pub const SS_BIT: u64 = 1 << 63;
pub fn ss_id(ss: &StopSign) -> u64 {
    let s = format!("{:?}", ss);
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h >> 1) | SS_BIT
}
pub type BalKey = (u32, u32, u64, u32);
pub fn bk(b: Ballot) -> BalKey {
    (b.n, b.priority, b.pid, b.config_id)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    CrashBefore,
    CrashAfter,
    Err,
}
/// Panic payload of an injected crash.
pub struct InjectedCrash;
#[derive(Debug)]
pub struct InjectedErr;
impl std::fmt::Display for InjectedErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected storage error")
    }
}
impl std::error::Error for InjectedErr {}

/// What the storage must contain, kept by a few obviously correct lines.
#[derive(Clone)]
pub struct Shadow<T: Val> {
    pub log: Vec<T>,
    /// First index of `log`.
    pub base: usize,
    /// Ids of the compacted positions as far as known (from trimmed entries or the snapshot).
    pub prefix: Vec<u64>,
    pub promise: Option<Ballot>,
    pub acc_round: Option<Ballot>,
    pub decided: usize,
    pub compacted: usize,
    pub snapshot: Option<T::Snap>,
    pub stopsign: Option<StopSign>,
}
impl<T: Val> Shadow<T> {
    pub fn new() -> Self {
        Shadow {
            log: vec![],
            base: 0,
            prefix: vec![],
            promise: None,
            acc_round: None,
            decided: 0,
            compacted: 0,
            snapshot: None,
            stopsign: None,
        }
    }
    /// Length of the log without the stop sign.
    pub fn end(&self) -> usize {
        self.base + self.log.len()
    }
    /// Length of the log, stop sign included.
    pub fn accepted(&self) -> usize {
        self.end() + self.stopsign.is_some() as usize
    }
    pub fn id_at(&self, pos: usize) -> Option<u64> {
        if pos < self.base {
            self.prefix.get(pos).copied()
        } else if pos < self.end() {
            Some(self.log[pos - self.base].id())
        } else if pos == self.end() {
            self.stopsign.as_ref().map(ss_id)
        } else {
            None
        }
    }
    pub fn full_ids(&self) -> Vec<u64> {
        (0..self.accepted()).filter_map(|p| self.id_at(p)).collect()
    }
    pub fn apply(&mut self, op: &StorageOp<T>) -> Result<(), String> {
        let mut problem = Ok(());
        match op {
            StorageOp::AppendEntry(e) => self.log.push(e.clone()),
            StorageOp::AppendEntries(es) => self.log.extend(es.iter().cloned()),
            StorageOp::AppendOnPrefix(from, es) => {
                if *from < self.base {
                    problem = Err(format!(
                        "log rewritten from {} inside the compacted prefix {}",
                        from, self.base
                    ));
                    self.log.clear();
                } else {
                    if *from > self.end() {
                        problem = Err(format!(
                            "log continued at {} but it ends at {}: gap",
                            from,
                            self.end()
                        ));
                    }
                    self.log.truncate(from - self.base);
                }
                self.log.extend(es.iter().cloned());
            }
            StorageOp::SetPromise(b) => self.promise = Some(*b),
            StorageOp::SetDecidedIndex(i) => self.decided = *i,
            StorageOp::SetAcceptedRound(b) => self.acc_round = Some(*b),
            StorageOp::SetCompactedIdx(i) => self.compacted = *i,
            StorageOp::Trim(i) => {
                if *i > self.base {
                    let k = (*i - self.base).min(self.log.len());
                    for e in self.log.drain(0..k) {
                        self.prefix.push(e.id());
                    }
                    self.base = *i;
                }
            }
            StorageOp::SetStopsign(ss) => self.stopsign = ss.clone(),
            StorageOp::SetSnapshot(s) => {
                self.snapshot = s.clone();
                if let Some(s) = s {
                    let ids = T::snap_ids(s);
                    if T::SNAP {
                        self.prefix = ids;
                    }
                }
            }
        }
        problem
    }
}
pub fn clone_op<T: Val>(op: &StorageOp<T>) -> StorageOp<T> {
    match op {
        StorageOp::AppendEntry(e) => StorageOp::AppendEntry(e.clone()),
        StorageOp::AppendEntries(e) => StorageOp::AppendEntries(e.clone()),
        StorageOp::AppendOnPrefix(i, e) => StorageOp::AppendOnPrefix(*i, e.clone()),
        StorageOp::SetPromise(b) => StorageOp::SetPromise(*b),
        StorageOp::SetDecidedIndex(i) => StorageOp::SetDecidedIndex(*i),
        StorageOp::SetAcceptedRound(b) => StorageOp::SetAcceptedRound(*b),
        StorageOp::SetCompactedIdx(i) => StorageOp::SetCompactedIdx(*i),
        StorageOp::Trim(i) => StorageOp::Trim(*i),
        StorageOp::SetStopsign(s) => StorageOp::SetStopsign(s.clone()),
        StorageOp::SetSnapshot(s) => StorageOp::SetSnapshot(s.clone()),
    }
}

/// The guarantees that do not hold on a storage that forgets or changes what this getter returns.
fn broken_by(getter: &str) -> &'static [&'static str] {
    match getter {
        "get_promise" => &["C05", "C06"],
        "get_accepted_round" => &["C05"],
        "get_decided_idx" => &["C02"],
        "get_stopsign" => &["C12"],
        "get_snapshot" => &["C14"],
        "get_compacted_idx" => &["C14", "C15"],
        // the log
        _ => &["C04", "C05", "C16"],
    }
}

pub struct Inner<T: Val> {
    pub back: Option<Box<dyn Storage<T>>>,
    pub sh: Shadow<T>,
    pub writes: u64,
    /// Fire at this write number (1-based, counted over the whole life of the storage).
    pub fault: Option<(u64, Fault)>,
    pub fired: u64,
    /// Longest log ever stored while the accepted round was the key.
    pub maxlen: HashMap<BalKey, usize>,
    /// Incremented when log, stop sign, compaction or decided index change.
    pub version: u64,
    pub viol: Vec<(&'static str, String)>,
    pub reads_checked: u64,
    pub states_checked: u64,
    pub distinct_write_kinds: HashSet<u64>,
    /// Set while a log sync was part of the last write group.
    pub check_snapshots: bool,
}
pub struct Store<T: Val>(pub Rc<RefCell<Inner<T>>>);
impl<T: Val> Clone for Store<T> {
    fn clone(&self) -> Self {
        Store(self.0.clone())
    }
}

impl<T: Val> Store<T> {
    pub fn new(back: Box<dyn Storage<T>>) -> Self {
        Store(Rc::new(RefCell::new(Inner {
            back: Some(back),
            sh: Shadow::new(),
            writes: 0,
            fault: None,
            fired: 0,
            maxlen: HashMap::new(),
            version: 0,
            viol: vec![],
            reads_checked: 0,
            states_checked: 0,
            distinct_write_kinds: HashSet::new(),
            check_snapshots: true,
        })))
    }
    pub fn i(&self) -> Ref<'_, Inner<T>> {
        self.0.borrow()
    }
    pub fn m(&self) -> RefMut<'_, Inner<T>> {
        self.0.borrow_mut()
    }
}

impl<T: Val> Inner<T> {
    pub fn v(&mut self, p: &'static str, m: String) {
        if self.viol.len() < 20 {
            self.viol.push((p, m));
        }
    }
    fn write(
        &mut self,
        ops: &[StorageOp<T>],
        real: impl FnOnce(&mut dyn Storage<T>) -> StorageResult<()>,
    ) -> StorageResult<()> {
        self.writes += 1;
        let fault = match self.fault {
            Some((k, f)) if k == self.writes => {
                self.fault = None;
                self.fired += 1;
                Some(f)
            }
            _ => None,
        };
        match fault {
            Some(Fault::CrashBefore) => std::panic::panic_any(InjectedCrash),
            Some(Fault::Err) => return Err(Box::new(InjectedErr)),
            _ => (),
        }
        let had_ss = self.sh.stopsign.is_some();
        let res = real(self.back.as_mut().unwrap().as_mut());
        if let Err(e) = &res {
            self.v("C17", format!("storage write failed: {}", e));
            return res;
        }
        let before = (self.sh.end(), self.sh.decided);
        let mut gap = None;
        for op in ops {
            if let Err(e) = self.sh.apply(op) {
                gap = Some(e);
            }
            if had_ss {
                match op {
                    StorageOp::AppendEntry(_) => self.v("C12", "entry stored after the reconfiguration marker".into()),
                    StorageOp::AppendEntries(v) if !v.is_empty() => {
                        self.v("C12", "entries stored after the reconfiguration marker".into())
                    }
                    _ => (),
                }
            }
        }
        #[cfg(feature = "uc")]
        for op in ops {
            let es = match op {
                StorageOp::AppendEntry(e) => std::slice::from_ref(e),
                StorageOp::AppendEntries(v) | StorageOp::AppendOnPrefix(_, v) => v.as_slice(),
                _ => &[],
            };
            if let Some(e) = es.iter().find(|e| !e.intact()) {
                self.v("C20", format!("stored entry {:?} differs from the appended {:?}", e, T::make(e.id())));
            }
        }
        if let Some(g) = gap {
            self.v("C08", g);
        }
        self.version += 1;
        let mut kind = 0u64;
        for op in ops {
            kind = kind.wrapping_mul(31).wrapping_add(match op {
                StorageOp::AppendEntry(_) => 1,
                StorageOp::AppendEntries(v) => 2 + (v.len().min(3) as u64) * 16,
                StorageOp::AppendOnPrefix(_, v) => 3 + (v.len().min(3) as u64) * 16,
                StorageOp::SetPromise(_) => 4,
                StorageOp::SetDecidedIndex(_) => 5,
                StorageOp::SetAcceptedRound(_) => 6,
                StorageOp::SetCompactedIdx(_) => 7,
                StorageOp::Trim(_) => 8,
                StorageOp::SetStopsign(s) => 9 + s.is_some() as u64 * 16,
                StorageOp::SetSnapshot(_) => 11,
            });
        }
        self.distinct_write_kinds.insert(kind);
        // The state a crash right now would leave behind must be self-consistent.
        self.states_checked += 1;
        let sh = &self.sh;
        let mut bad = None;
        if sh.decided > sh.accepted() {
            bad = Some(format!("decided index {} beyond the stored log end {}", sh.decided, sh.accepted()));
        } else if sh.compacted > sh.decided {
            bad = Some(format!("compacted index {} beyond the decided index {}", sh.compacted, sh.decided));
        } else if sh.compacted != sh.base {
            bad = Some(format!("compacted index {} but the log starts at {}", sh.compacted, sh.base));
        } else if sh.decided < before.1 {
            bad = Some(format!("stored decided index regressed from {} to {}", before.1, sh.decided));
        }
        if let Some(b) = bad {
            if b.contains("regressed") {
                self.v("C02", b);
            } else {
                self.v("C19", b);
            }
        }
        let round = self.sh.acc_round.map(bk).unwrap_or((0, 0, 0, 0));
        let len = self.sh.accepted();
        let e = self.maxlen.entry(round).or_insert(0);
        *e = (*e).max(len);
        if fault == Some(Fault::CrashAfter) {
            std::panic::panic_any(InjectedCrash)
        }
        Ok(())
    }
    fn rd<X: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: StorageResult<X>, want: X) -> StorageResult<X> {
        self.reads_checked += 1;
        match got {
            Ok(g) => {
                if g != want {
                    let m = format!("{} returned {:?}, stored was {:?}", what, g, want);
                    for t in broken_by(what) {
                        self.v(t, m.clone());
                    }
                    self.v("C17", m);
                }
                Ok(g)
            }
            Err(e) => {
                self.v("C17", format!("{} failed: {}", what, e));
                Err(e)
            }
        }
    }
    /// Compares every getter of the back end with the model (used at restarts and at the end).
    pub fn compare_all(&mut self, tag: &'static str) {
        let n0 = self.viol.len();
        let sh = self.sh.clone();
        let back = self.back.take().unwrap();
        {
            let b = back.as_ref();
            let _ = self.rd("get_promise", b.get_promise(), sh.promise);
            let _ = self.rd("get_accepted_round", b.get_accepted_round(), sh.acc_round);
            let _ = self.rd("get_decided_idx", b.get_decided_idx(), sh.decided);
            let _ = self.rd("get_compacted_idx", b.get_compacted_idx(), sh.compacted);
            let _ = self.rd("get_log_len", b.get_log_len(), sh.log.len());
            let _ = self.rd("get_stopsign", b.get_stopsign(), sh.stopsign.clone());
            let _ = self.rd("get_snapshot", b.get_snapshot(), sh.snapshot.clone());
            let _ = self.rd("get_suffix", b.get_suffix(sh.base), sh.log.clone());
        }
        self.back = Some(back);
        for v in self.viol.iter_mut().skip(n0) {
            if v.0 == "C17" {
                v.0 = tag;
            }
        }
        if self.viol.len() > n0 {
            let m = self.viol[n0].1.clone();
            self.v("C19", m);
        }
    }
}

impl<T: Val> Storage<T> for Store<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        let copy: Vec<StorageOp<T>> = ops.iter().map(clone_op).collect();
        self.m().write(&copy, |b| b.write_atomically(ops))
    }
    fn append_entry(&mut self, entry: T) -> StorageResult<()> {
        let c = [StorageOp::AppendEntry(entry.clone())];
        self.m().write(&c, |b| b.append_entry(entry))
    }
    fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
        let c = [StorageOp::AppendEntries(entries.clone())];
        self.m().write(&c, |b| b.append_entries(entries))
    }
    fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
        let c = [StorageOp::AppendOnPrefix(from_idx, entries.clone())];
        self.m().write(&c, |b| b.append_on_prefix(from_idx, entries))
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.m().write(&[StorageOp::SetPromise(n)], |b| b.set_promise(n))
    }
    fn set_decided_idx(&mut self, ld: usize) -> StorageResult<()> {
        self.m().write(&[StorageOp::SetDecidedIndex(ld)], |b| b.set_decided_idx(ld))
    }
    fn set_accepted_round(&mut self, na: Ballot) -> StorageResult<()> {
        self.m().write(&[StorageOp::SetAcceptedRound(na)], |b| b.set_accepted_round(na))
    }
    fn set_compacted_idx(&mut self, idx: usize) -> StorageResult<()> {
        self.m().write(&[StorageOp::SetCompactedIdx(idx)], |b| b.set_compacted_idx(idx))
    }
    fn trim(&mut self, idx: usize) -> StorageResult<()> {
        self.m().write(&[StorageOp::Trim(idx)], |b| b.trim(idx))
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        let c = [StorageOp::SetStopsign(s.clone())];
        self.m().write(&c, |b| b.set_stopsign(s))
    }
    fn set_snapshot(&mut self, snapshot: Option<T::Snapshot>) -> StorageResult<()> {
        let c = [StorageOp::SetSnapshot(snapshot.clone())];
        self.m().write(&c, |b| b.set_snapshot(snapshot))
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_decided_idx();
        let want = m.sh.decided;
        m.rd("get_decided_idx", got, want)
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_accepted_round();
        let want = m.sh.acc_round;
        m.rd("get_accepted_round", got, want)
    }
    fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_entries(from, to);
        let (base, end) = (m.sh.base, m.sh.end());
        let want = if from >= base && from <= to && to <= end {
            m.sh.log[from - base..to - base].to_vec()
        } else {
            vec![]
        };
        m.rd(&format!("get_entries({},{})", from, to), got, want)
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_log_len();
        let want = m.sh.log.len();
        m.rd("get_log_len", got, want)
    }
    fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_suffix(from);
        let (base, end) = (m.sh.base, m.sh.end());
        let want = if from >= base && from <= end {
            m.sh.log[from - base..].to_vec()
        } else {
            vec![]
        };
        m.rd(&format!("get_suffix({})", from), got, want)
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_promise();
        let want = m.sh.promise;
        m.rd("get_promise", got, want)
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_stopsign();
        let want = m.sh.stopsign.clone();
        m.rd("get_stopsign", got, want)
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_compacted_idx();
        let want = m.sh.compacted;
        m.rd("get_compacted_idx", got, want)
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        let mut m = self.m();
        let got = m.back.as_ref().unwrap().get_snapshot();
        let want = m.sh.snapshot.clone();
        m.rd("get_snapshot", got, want)
    }
}
