//! The storage back ends against the log model (C17), and the persistent one across reopening,
//! process kills at every write system call, I/O errors and unserialisable values (C18).
use crate::{
    engine::{Facts, RunFn, RunOut},
    entry::Val,
    monitor::Violation,
    rng::{mix, Rng},
    store::{clone_op, Shadow},
};
use omnipaxos::{
    ballot_leader_election::Ballot,
    storage::{Entry, Snapshot, StopSign, Storage, StorageOp, StorageResult},
    util::FlexibleQuorum,
    ClusterConfig,
};
use omnipaxos_storage::{
    memory_storage::MemoryStorage,
    persistent_storage::{PersistentStorage, PersistentStorageConfig},
};
use rocksdb::Options;
use serde::{ser::Error as _, Deserialize, Serialize, Serializer};
use std::{
    fmt::Debug,
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    process::{Command, Stdio},
    sync::atomic::{AtomicI64, AtomicU64, Ordering},
};

/// Ids with this bit stand for values that cannot be serialised.
const BAD: u64 = 1 << 62;
fn ser_id<S: Serializer>(id: &u64, s: S) -> Result<S::Ok, S::Error> {
    if id & BAD != 0 {
        return Err(S::Error::custom("unserialisable value"));
    }
    s.serialize_u64(*id)
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FVal {
    pay: Vec<u8>,
    #[serde(serialize_with = "ser_id")]
    id: u64,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FSnap {
    pay: Vec<u8>,
    #[serde(serialize_with = "ser_id")]
    id: u64,
}
impl Entry for FVal {
    type Snapshot = FSnap;
}
impl Snapshot<FVal> for FSnap {
    fn create(_: &[FVal]) -> Self {
        unimplemented!()
    }
    fn merge(&mut self, _: Self) {}
    fn use_snapshots() -> bool {
        true
    }
}
fn pay(id: u64) -> Vec<u8> {
    let r = mix(id ^ 0x77);
    let n = match r % 40 {
        0 => 40_000,
        1..=4 => 700,
        5 | 6 => 0,
        _ => 12,
    };
    vec![(r >> 8) as u8; n]
}
impl Val for FVal {
    type Snap = FSnap;
    const SNAP: bool = false;
    const KIND: &'static str = "fval";
    fn make(id: u64) -> Self {
        FVal { pay: pay(id), id }
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn snap_ids(_: &FSnap) -> Vec<u64> {
        vec![]
    }
    fn snap_make(_: &[u64]) -> Option<FSnap> {
        None
    }
}

type Sh = Shadow<FVal>;
#[derive(Clone, Copy, PartialEq)]
enum How {
    /// One call of the operation's own method.
    Direct,
    /// `trim` and `set_compacted_idx` one after the other.
    Pair,
    Atomic,
}
struct Step {
    how: How,
    ops: Vec<StorageOp<FVal>>,
    bad: bool,
}
struct Gen {
    next: u64,
    pairs: bool,
    bad: u32,
}
fn ballot(r: &mut Rng) -> Ballot {
    let e = |r: &mut Rng| if r.chance(10) { u32::MAX } else { r.below(50) as u32 };
    Ballot { config_id: e(r), n: e(r), priority: e(r), pid: if r.chance(10) { u64::MAX } else { r.below(9) as u64 } }
}
fn stopsign(r: &mut Rng) -> StopSign {
    let n = r.range(2, 6);
    StopSign {
        next_config: ClusterConfig {
            configuration_id: r.range(1, 1000) as u32,
            nodes: (0..n).map(|_| r.next()).collect(),
            flexible_quorum: if r.chance(40) { Some(FlexibleQuorum { read_quorum_size: r.range(2, 9), write_quorum_size: r.range(2, 9) }) } else { None },
        },
        metadata: match r.below(3) {
            0 => None,
            1 => Some(vec![]),
            _ => Some((0..r.below(200)).map(|x| x as u8).collect()),
        },
    }
}
impl Gen {
    fn vals(&mut self, r: &mut Rng) -> Vec<FVal> {
        let n = if r.below(400) == 0 { r.range(200, 700) } else { *r.pick(&[0usize, 1, 1, 2, 3, 5]) };
        (0..n).map(|_| self.val()).collect()
    }
    fn val(&mut self) -> FVal {
        self.next += 1;
        FVal::make(self.next)
    }
    fn snap(&mut self) -> FSnap {
        self.next += 1;
        FSnap { pay: pay(self.next ^ 5), id: self.next }
    }
    fn op(&mut self, r: &mut Rng, base: usize, end: usize) -> StorageOp<FVal> {
        match r.below(12) {
            0 => StorageOp::SetPromise(ballot(r)),
            1 => StorageOp::SetAcceptedRound(ballot(r)),
            2 => StorageOp::SetDecidedIndex(r.below(end + 1)),
            3 => StorageOp::SetStopsign(if r.chance(30) { None } else { Some(stopsign(r)) }),
            4 => StorageOp::SetSnapshot(if r.chance(20) { None } else { Some(self.snap()) }),
            5 | 6 => StorageOp::AppendEntry(self.val()),
            7 | 8 => StorageOp::AppendEntries(self.vals(r)),
            _ => StorageOp::AppendOnPrefix(r.range(base, end), self.vals(r)),
        }
    }
    fn step(&mut self, r: &mut Rng, sh: &Sh) -> Step {
        let (mut base, mut end) = (sh.base, sh.end());
        let mut how = How::Atomic;
        let mut ops = vec![];
        match r.below(10) {
            0..=4 => {
                how = How::Direct;
                ops.push(self.op(r, base, end));
            }
            5 | 6 => {
                // A compaction: of stored entries, or of an already removed prefix (no effect).
                let i = r.range(base, end);
                ops.push(StorageOp::Trim(i));
                ops.push(StorageOp::SetCompactedIdx(i));
                if r.chance(50) {
                    ops.push(StorageOp::SetSnapshot(Some(self.snap())));
                } else if self.pairs && r.chance(50) {
                    how = How::Pair;
                }
            }
            7 => {
                // A log synchronisation, also beyond the end of the log.
                let mut i = r.range(base, end + 3);
                if r.chance(12) {
                    // Close to where the index needs one more byte.
                    let j = (1usize << *r.pick(&[7, 8, 8, 8, 15, 16, 24, 31, 32, 40])) - r.below(5);
                    if j >= base {
                        i = j;
                    }
                }
                ops.push(StorageOp::SetAcceptedRound(ballot(r)));
                ops.push(StorageOp::SetDecidedIndex(i));
                ops.push(StorageOp::Trim(i));
                ops.push(StorageOp::SetCompactedIdx(i));
                ops.push(StorageOp::SetSnapshot(Some(self.snap())));
                ops.push(StorageOp::AppendOnPrefix(i, self.vals(r)));
                if r.chance(40) {
                    ops.push(StorageOp::SetStopsign(if r.chance(50) { None } else { Some(stopsign(r)) }));
                }
            }
            _ => {
                for _ in 0..r.range(0, 6) {
                    let op = self.op(r, base, end);
                    match &op {
                        StorageOp::AppendEntry(_) => end += 1,
                        StorageOp::AppendEntries(v) => end += v.len(),
                        StorageOp::AppendOnPrefix(i, v) => end = i + v.len(),
                        _ => (),
                    }
                    ops.push(op);
                    if r.chance(10) {
                        base = r.range(base, end);
                        ops.push(StorageOp::Trim(base));
                        ops.push(StorageOp::SetCompactedIdx(base));
                    }
                }
            }
        }
        let mut bad = false;
        if r.chance(self.bad) {
            // One of the values cannot be serialised.
            let mut spots: Vec<&mut u64> = vec![];
            for op in ops.iter_mut() {
                match op {
                    StorageOp::AppendEntry(e) => spots.push(&mut e.id),
                    StorageOp::AppendEntries(v) | StorageOp::AppendOnPrefix(_, v) => spots.extend(v.iter_mut().map(|e| &mut e.id)),
                    StorageOp::SetSnapshot(Some(s)) => spots.push(&mut s.id),
                    _ => (),
                }
            }
            if !spots.is_empty() {
                let k = r.below(spots.len());
                *spots[k] |= BAD;
                bad = true;
            }
        }
        Step { how, ops, bad }
    }
}
fn run_step(b: &mut dyn Storage<FVal>, s: &Step) -> StorageResult<()> {
    let ops: Vec<StorageOp<FVal>> = s.ops.iter().map(clone_op).collect();
    if s.how == How::Atomic {
        return b.write_atomically(ops);
    }
    for op in ops {
        match op {
            StorageOp::AppendEntry(e) => b.append_entry(e)?,
            StorageOp::AppendEntries(v) => b.append_entries(v)?,
            StorageOp::AppendOnPrefix(i, v) => b.append_on_prefix(i, v)?,
            StorageOp::SetPromise(x) => b.set_promise(x)?,
            StorageOp::SetDecidedIndex(i) => b.set_decided_idx(i)?,
            StorageOp::SetAcceptedRound(x) => b.set_accepted_round(x)?,
            StorageOp::SetCompactedIdx(i) => b.set_compacted_idx(i)?,
            StorageOp::Trim(i) => b.trim(i)?,
            StorageOp::SetStopsign(x) => b.set_stopsign(x)?,
            StorageOp::SetSnapshot(x) => b.set_snapshot(x)?,
        }
    }
    Ok(())
}
fn apply(sh: &mut Sh, s: &Step) {
    for op in &s.ops {
        let _ = sh.apply(op);
    }
}
fn show(s: &Step) -> String {
    let f = |op: &StorageOp<FVal>| match op {
        StorageOp::AppendEntry(e) => format!("AppendEntry({})", e.id),
        StorageOp::AppendEntries(v) => format!("AppendEntries({:?})", v.iter().map(|e| e.id).collect::<Vec<_>>()),
        StorageOp::AppendOnPrefix(i, v) => format!("AppendOnPrefix({}, {:?})", i, v.iter().map(|e| e.id).collect::<Vec<_>>()),
        StorageOp::SetSnapshot(x) => format!("SetSnapshot({:?})", x.as_ref().map(|x| x.id)),
        o => format!("{:?}", o),
    };
    let h = match s.how {
        How::Direct => "call",
        How::Pair => "calls",
        How::Atomic => "atomic",
    };
    format!("{}{} [{}]", h, if s.bad { " (unserialisable)" } else { "" }, s.ops.iter().map(f).collect::<Vec<_>>().join(", "))
}
fn short<X: Debug>(x: &X) -> String {
    let s = format!("{:?}", x);
    if s.len() > 300 {
        format!("{}... ({} bytes)", s.chars().take(300).collect::<String>(), s.len())
    } else {
        s
    }
}
fn ids(v: &[FVal]) -> String {
    short(&v.iter().map(|e| if *e == FVal::make(e.id) { e.id as i64 } else { -(e.id as i64) }).collect::<Vec<_>>())
}
/// All getters against the model; `r` adds random ranges.
fn compare(b: &dyn Storage<FVal>, sh: &Sh, r: Option<&mut Rng>) -> Result<u64, String> {
    fn eq<X: PartialEq + Debug>(what: &str, got: StorageResult<X>, want: X) -> Result<(), String> {
        match got {
            Ok(g) if g == want => Ok(()),
            Ok(g) => Err(format!("{} returned {}, stored was {}", what, short(&g), short(&want))),
            Err(e) => Err(format!("{} failed: {}", what, e)),
        }
    }
    fn eqv(what: &str, got: StorageResult<Vec<FVal>>, want: &[FVal]) -> Result<(), String> {
        match got {
            Ok(g) if g == want => Ok(()),
            Ok(g) => Err(format!("{} returned entries {}, stored were {}", what, ids(&g), ids(want))),
            Err(e) => Err(format!("{} failed: {}", what, e)),
        }
    }
    let mut n = 8;
    eq("get_promise", b.get_promise(), sh.promise)?;
    eq("get_accepted_round", b.get_accepted_round(), sh.acc_round)?;
    eq("get_decided_idx", b.get_decided_idx(), sh.decided)?;
    eq("get_compacted_idx", b.get_compacted_idx(), sh.compacted)?;
    eq("get_stopsign", b.get_stopsign(), sh.stopsign.clone())?;
    eq("get_snapshot", b.get_snapshot(), sh.snapshot.clone())?;
    eq("get_log_len", b.get_log_len(), sh.log.len())?;
    let (base, end) = (sh.base, sh.end());
    eqv(&format!("get_suffix({})", base), b.get_suffix(base), &sh.log)?;
    if let Some(r) = r {
        for _ in 0..4 {
            let idx = |r: &mut Rng| match r.below(12) {
                0 => 0,
                1 => base.saturating_sub(1),
                2 => end + 1,
                3 => end + r.below(5),
                4 => r.below(end + 1),
                5 if r.chance(10) => usize::MAX,
                _ => r.range(base, end),
            };
            let (from, to) = (idx(r), idx(r));
            let want: &[FVal] = if from >= base && from <= to && to <= end { &sh.log[from - base..to - base] } else { &[] };
            eqv(&format!("get_entries({}, {}) of a log from {} to {}", from, to, base, end), b.get_entries(from, to), want)?;
            let want: &[FVal] = if from >= base && from <= end { &sh.log[from - base..] } else { &[] };
            eqv(&format!("get_suffix({}) of a log from {} to {}", from, base, end), b.get_suffix(from), want)?;
            n += 2;
        }
    }
    Ok(n)
}

/// A scratch directory of this process, removed when dropped.
pub struct Scratch(pub String);
static SCRATCH: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Self {
        let k = SCRATCH.fetch_add(1, Ordering::Relaxed);
        let root = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm".into() } else { std::env::temp_dir() };
        let p = root.join(format!("vh-{}-{}", std::process::id(), k));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p.to_str().unwrap().to_string())
    }
    pub fn db(&self) -> String {
        format!("{}/db", self.0)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// The files as they are, as far as they are written: what a kill of the process at one instant leaves
/// behind. RocksDB's own threads might change them meanwhile, then they are copied again; false if they
/// never come to rest.
pub fn copy_dir(from: &str, to: &str) -> bool {
    use std::os::unix::fs::MetadataExt;
    let stamp = || {
        let mut v: Vec<_> = std::fs::read_dir(from)
            .expect("database directory")
            .flatten()
            .filter_map(|f| f.metadata().ok().map(|m| (f.file_name(), m.ino(), m.size(), m.mtime(), m.mtime_nsec())))
            .collect();
        v.sort();
        v
    };
    for _ in 0..1000 {
        let before = stamp();
        let _ = std::fs::remove_dir_all(to);
        std::fs::create_dir_all(to).expect("scratch directory");
        for f in &before {
            let n = f.0.to_string_lossy();
            let _ = std::fs::copy(format!("{}/{}", from, n), format!("{}/{}", to, n));
        }
        if stamp() == before {
            return true;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    let _ = std::fs::remove_dir_all(to);
    false
}
/// Variants of the RocksDB options a user may pass; the small ones flush and compact all the time.
fn config(path: &str, variant: u64) -> PersistentStorageConfig {
    match variant % 3 {
        0 => {
            let mut c = PersistentStorageConfig::default();
            c.set_path(path.to_string());
            c
        }
        1 => PersistentStorageConfig::with_path(path.to_string()),
        _ => {
            let mut db = Options::default();
            db.create_if_missing(true);
            db.create_missing_column_families(true);
            db.set_write_buffer_size(16 << 10);
            let mut log = Options::default();
            log.set_write_buffer_size(16 << 10);
            log.set_level_zero_file_num_compaction_trigger(2);
            PersistentStorageConfig::with(path.to_string(), log, db)
        }
    }
}
pub fn open<T>(path: &str, variant: u64) -> PersistentStorage<T>
where
    T: Entry + Serialize + for<'a> Deserialize<'a>,
    T::Snapshot: Serialize + for<'a> Deserialize<'a>,
{
    PersistentStorage::open(config(path, variant))
}

fn finish(desc: String, f: Facts, log: Vec<String>, hash: u64, v: Option<(&'static str, String)>) -> RunOut {
    let viol = v.into_iter().map(|(prop, msg)| Violation { prop, step: 0, msg }).collect();
    RunOut { viol, hash, facts: f, log, desc, ..Default::default() }
}

/// One random history on one back end. `tag` is the property that a deviation breaks.
fn history(seed: u64, trace: bool, persistent: bool, reopen: u32, bad: u32, tag: &'static str) -> RunOut {
    let mut r = Rng::new(seed);
    let variant = r.next();
    let steps = r.range(10, 120);
    let desc = format!("{} storage, options {}, {} steps, reopened {}%, unserialisable {}%", if persistent { "persistent" } else { "memory" }, variant % 3, steps, reopen, bad);
    let mut f = Facts::new();
    let mut log = vec![];
    let mut hash = seed & 0xff;
    let scratch = if persistent { Some(Scratch::new()) } else { None };
    let mut res: Option<(&'static str, String)> = None;
    let run = catch_unwind(AssertUnwindSafe(|| {
        let mk = |first: bool| -> Box<dyn Storage<FVal>> {
            match &scratch {
                None => Box::new(MemoryStorage::<FVal>::default()),
                Some(s) if first && variant & 8 != 0 => Box::new(PersistentStorage::<FVal>::new(config(&s.db(), variant))),
                Some(s) => Box::new(open::<FVal>(&s.db(), variant)),
            }
        };
        let mut b = Some(mk(true));
        let mut sh = Sh::new();
        let mut g = Gen { next: 0, pairs: true, bad: if persistent { bad } else { 0 } };
        for k in 0..steps {
            if persistent && r.chance(reopen) {
                drop(b.take());
                b = Some(mk(false));
                *f.entry("reopenings").or_insert(0) += 1;
                if trace {
                    log.push(format!("{} reopen", k));
                }
                if let Err(e) = compare(b.as_ref().unwrap().as_ref(), &sh, if tag == "C17" { Some(&mut r) } else { None }) {
                    res = Some((tag, format!("step {}: after reopening: {}", k, e)));
                    return;
                }
                hash = mix(hash ^ 99);
            }
            let s = g.step(&mut r, &sh);
            if trace {
                log.push(format!("{} {}", k, show(&s)));
            }
            hash = mix(hash ^ s.ops.len() as u64 ^ (sh.base as u64) << 8 ^ (sh.end() as u64) << 24 ^ (s.how as u64) << 60);
            let out = run_step(b.as_mut().unwrap().as_mut(), &s);
            match (&out, s.bad) {
                (Ok(()), false) => apply(&mut sh, &s),
                (Ok(()), true) => {
                    res = Some((tag, format!("step {}: {} succeeded", k, show(&s))));
                    return;
                }
                (Err(e), false) => {
                    res = Some((tag, format!("step {}: {} failed: {}", k, show(&s), e)));
                    return;
                }
                (Err(_), true) => *f.entry("refused operations").or_insert(0) += 1,
            }
            *f.entry("storage operations").or_insert(0) += s.ops.len() as u64;
            if s.how == How::Atomic && s.ops.len() > 1 {
                *f.entry("atomic groups").or_insert(0) += 1;
            }
            match compare(b.as_ref().unwrap().as_ref(), &sh, if tag == "C17" { Some(&mut r) } else { None }) {
                Ok(n) => *f.entry("storage reads compared").or_insert(0) += n,
                Err(e) => {
                    res = Some((tag, format!("step {}: after {}: {}", k, show(&s), e)));
                    return;
                }
            }
            if sh.base > 0 {
                *f.entry("states with a removed prefix").or_insert(0) += 1;
            }
        }
    }));
    if run.is_err() && res.is_none() {
        res = Some((tag, format!("panic: {}", crate::sim::last_panic())));
    }
    finish(desc, f, log, hash, res)
}
pub fn job(persistent: bool, reopen: u32, bad: u32, tag: &'static str) -> RunFn {
    Box::new(move |seed, trace| history(seed, trace, persistent, reopen, bad, tag))
}

/// A storage opened with chosen options, through each way the configuration offers.
fn opening(seed: u64, trace: bool) -> RunOut {
    let mut r = Rng::new(seed);
    let scratch = Scratch::new();
    let (path, wal) = (scratch.db(), format!("{}/wal", scratch.0));
    let way = r.below(5);
    let own_wal = way >= 2 && r.chance(60);
    let size = (64 + r.below(1000)) << 10;
    let fresh = r.chance(50);
    let mut db = Options::default();
    db.create_if_missing(true);
    db.create_missing_column_families(true);
    if own_wal {
        db.set_wal_dir(&wal);
    }
    let mut lo = Options::default();
    lo.set_write_buffer_size(size);
    let cfg = || match way {
        0 => {
            let mut c = PersistentStorageConfig::default();
            c.set_path(path.clone());
            c
        }
        1 => PersistentStorageConfig::with_path(path.clone()),
        2 => PersistentStorageConfig::with(path.clone(), lo.clone(), db.clone()),
        3 => {
            let mut c = PersistentStorageConfig::with_path(format!("{}/other", scratch.0));
            c.set_database_options(db.clone());
            c.set_log_options(lo.clone());
            c.set_path(path.clone());
            c
        }
        _ => {
            let c = PersistentStorageConfig::with(path.clone(), lo.clone(), db.clone());
            PersistentStorageConfig::with(c.get_path().clone(), c.get_log_options(), c.get_database_options())
        }
    };
    let desc = format!("configuration made in way {}, own write-ahead log {}, buffer {}, new {}", way, own_wal, size, fresh);
    let mut f = Facts::new();
    let mut log = vec![];
    let mut g = Gen { next: 0, pairs: true, bad: 0 };
    let run = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let mut sh = Sh::new();
        for round in 0..2 {
            let mut b: PersistentStorage<FVal> = if round == 0 && fresh { PersistentStorage::new(cfg()) } else { PersistentStorage::open(cfg()) };
            compare(&b, &sh, None).map_err(|e| format!("as opened: {}", e))?;
            for _ in 0..r.range(3, 20) {
                let s = g.step(&mut r, &sh);
                if trace {
                    log.push(show(&s));
                }
                run_step(&mut b, &s).map_err(|e| format!("{} failed: {}", show(&s), e))?;
                apply(&mut sh, &s);
            }
            compare(&b, &sh, None)?;
            drop(b);
            if std::fs::metadata(format!("{}/CURRENT", path)).is_err() {
                return Err(format!("nothing is stored in the configured path {}", path));
            }
            if std::fs::metadata(format!("{}/other", scratch.0)).is_ok() {
                return Err("a path that was replaced in the configuration was used".into());
            }
            if way < 2 {
                continue;
            }
            // The newest of RocksDB's own record of the options in use.
            let opts = std::fs::read_dir(&path)
                .unwrap()
                .filter_map(|e| e.ok())
                .filter(|e| e.file_name().to_string_lossy().starts_with("OPTIONS-"))
                .max_by_key(|e| e.file_name())
                .ok_or("no record of options")?;
            let text = std::fs::read_to_string(opts.path()).unwrap();
            let of = |section: &str, key: &str| {
                let part = text.split('[').find(|p| p.starts_with(section)).unwrap_or("");
                part.lines().find_map(|l| l.trim().strip_prefix(key).and_then(|v| v.strip_prefix('='))).map(|v| v.to_string())
            };
            let got = of("CFOptions \"log\"", "write_buffer_size");
            if got != Some(size.to_string()) {
                return Err(format!("the log is opened with a buffer of {:?} instead of the configured {}", got, size));
            }
            if own_wal {
                let n = std::fs::read_dir(&wal).map(|d| d.filter_map(|e| e.ok()).filter(|e| e.file_name().to_string_lossy().ends_with(".log")).count()).unwrap_or(0);
                if n == 0 {
                    return Err(format!("the configured write-ahead log directory {} is not used", wal));
                }
            }
            *f.entry("configured options seen in use").or_insert(0) += 1;
        }
        // Somebody who asks for a new storage must not get, nor harm, an existing one.
        if catch_unwind(AssertUnwindSafe(|| PersistentStorage::<FVal>::new(cfg()))).is_ok() {
            return Err("an existing storage was opened as a new one".into());
        }
        *f.entry("existing storages refused as new").or_insert(0) += 1;
        let b: PersistentStorage<FVal> = PersistentStorage::open(cfg());
        compare(&b, &sh, None).map_err(|e| format!("after a refused creation: {}", e))?;
        Ok(())
    }));
    let res = match run {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(("C18", e)),
        Err(_) => Some(("C18", format!("panic: {}", crate::sim::last_panic()))),
    };
    finish(desc, f, log, mix(way as u64 | (size as u64) << 8 | (own_wal as u64) << 40), res)
}
pub fn openings() -> RunFn {
    Box::new(opening)
}

// ---- write system calls of this process -------------------------------------------------------

/// Remaining write calls until the fault (negative: no fault armed).
static FUSE: AtomicI64 = AtomicI64::new(-1);
static MODE: AtomicU64 = AtomicU64::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);
fn database_file(fd: i32) -> bool {
    let p = format!("/proc/self/fd/{}\0", fd);
    let mut buf = [0u8; 512];
    let n = unsafe { libc::readlink(p.as_ptr() as *const _, buf.as_mut_ptr() as *mut _, buf.len()) };
    if n <= 0 {
        return false;
    }
    let s = &buf[..n as usize];
    let name = s.rsplit(|c| *c == b'/').next().unwrap_or(s);
    // RocksDB's own text log does not matter.
    s.windows(4).any(|w| w == b"/db/") && !name.starts_with(b"LOG")
}
fn die() -> ! {
    unsafe {
        libc::kill(libc::getpid(), libc::SIGKILL);
        loop {
            libc::pause();
        }
    }
}
/// Takes the place of the C library's `write` in this executable, RocksDB included.
///
/// # Safety
/// As `write(2)`.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let raw = |n: usize| libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t;
    if FUSE.load(Ordering::Relaxed) < 0 || fd < 3 || !database_file(fd) {
        return raw(n);
    }
    SEEN.fetch_add(1, Ordering::Relaxed);
    if FUSE.fetch_sub(1, Ordering::Relaxed) != 1 {
        FUSE.fetch_max(0, Ordering::Relaxed);
        return raw(n);
    }
    match MODE.load(Ordering::Relaxed) {
        0 => die(),
        1 => {
            raw(n);
            die()
        }
        2 => {
            raw(n / 2);
            die()
        }
        _ => {
            *libc::__errno_location() = libc::ENOSPC;
            -1
        }
    }
}

const OPS: usize = 25;
/// The child: runs the history of `seed` on the database and reports each step on standard output.
pub fn child(a: &[String]) -> i32 {
    let (dir, seed, fuse, mode): (&str, u64, i64, u64) = (&a[0], a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let endless = a.get(4).is_some();
    let mut r = Rng::new(seed);
    let variant = r.next();
    MODE.store(mode, Ordering::Relaxed);
    let out = std::io::stdout();
    let say = |s: String| {
        let mut o = out.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.flush();
    };
    let mut sh = Sh::new();
    let mut g = Gen { next: 0, pairs: false, bad: 0 };
    let arm = || FUSE.store(fuse, Ordering::Relaxed);
    if variant & 16 != 0 {
        arm();
    }
    let mut b = Some(open::<FVal>(dir, variant));
    arm();
    let mut k = 0;
    while endless || k < OPS {
        if r.chance(4) && (!endless || k % 64 == 0) {
            drop(b.take());
            b = Some(open::<FVal>(dir, variant));
        }
        let s = g.step(&mut r, &sh);
        say(format!("S {}\n", k));
        let res = run_step(b.as_mut().unwrap(), &s);
        if res.is_ok() {
            apply(&mut sh, &s);
        }
        say(format!("D {} {}\n", k, if res.is_ok() { "ok" } else { "err" }));
        if endless && k % 16 != 0 {
            k += 1;
            continue;
        }
        if let Err(e) = compare(b.as_ref().unwrap(), &sh, None) {
            say(format!("X step {}: {} {}: {}\n", k, show(&s), if res.is_ok() { "succeeded" } else { "failed with an error" }, e));
        }
        k += 1;
    }
    drop(b);
    say(format!("W {}\n", SEEN.load(Ordering::Relaxed)));
    0
}
struct ChildOut {
    results: Vec<bool>,
    started: usize,
    complaint: Option<String>,
    writes: u64,
    finished: bool,
}
fn run_child(dir: &str, seed: u64, fuse: i64, mode: u64, kill_after_us: Option<u64>) -> ChildOut {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["ps-child", dir, &seed.to_string(), &fuse.to_string(), &mode.to_string()]);
    if kill_after_us.is_some() {
        c.arg("endless");
    }
    let mut ch = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("child");
    let mut o = ChildOut { results: vec![], started: 0, complaint: None, writes: 0, finished: false };
    let mut rd = BufReader::new(ch.stdout.take().unwrap());
    let mut line = String::new();
    let mut killed = false;
    loop {
        line.clear();
        if rd.read_line(&mut line).unwrap_or(0) == 0 || !line.ends_with('\n') {
            break;
        }
        let l = line.trim_end();
        if let Some(x) = l.strip_prefix("S ") {
            o.started = x.parse::<usize>().unwrap() + 1;
            if let (Some(us), false) = (kill_after_us, killed) {
                // From the first operation on, an arbitrary instant.
                std::thread::sleep(std::time::Duration::from_micros(us));
                let _ = ch.kill();
                killed = true;
            }
        } else if let Some(x) = l.strip_prefix("D ") {
            o.results.push(x.ends_with("ok"));
        } else if let Some(x) = l.strip_prefix("X ") {
            o.complaint.get_or_insert(x.to_string());
        } else if let Some(x) = l.strip_prefix("W ") {
            o.writes = x.parse().unwrap();
            o.finished = true;
        }
    }
    let _ = ch.wait();
    o
}
/// Replays what the child reported on the model and compares the database it left behind.
fn judge(dir: &str, seed: u64, c: &ChildOut, log: &mut Vec<String>, trace: bool) -> Option<String> {
    if let Some(x) = &c.complaint {
        return Some(format!("in the process: {}", x));
    }
    let mut r = Rng::new(seed);
    let variant = r.next();
    let mut sh = Sh::new();
    let mut g = Gen { next: 0, pairs: false, bad: 0 };
    let mut last: Option<Step> = None;
    for k in 0..c.started {
        let _ = r.chance(4);
        let s = g.step(&mut r, &sh);
        if trace {
            log.push(format!("{} {} {:?}", k, show(&s), c.results.get(k)));
        }
        match c.results.get(k) {
            Some(true) => apply(&mut sh, &s),
            Some(false) => (),
            None => last = Some(s),
        }
    }
    let db = match catch_unwind(AssertUnwindSafe(|| open::<FVal>(dir, variant))) {
        Ok(db) => db,
        Err(_) => return Some(format!("the storage does not open: {}", crate::sim::last_panic())),
    };
    let e1 = match compare(&db, &sh, None) {
        Ok(_) => None,
        Err(e) => Some(e),
    };
    let e1 = e1?;
    if let Some(s) = last {
        let mut s2 = sh.clone();
        apply(&mut s2, &s);
        return match compare(&db, &s2, None) {
            Ok(_) => None,
            Err(e2) => Some(format!(
                "killed during step {} {}: the storage holds neither the state before ({}) nor after ({})",
                c.started - 1,
                show(&s),
                e1,
                e2
            )),
        };
    }
    Some(format!("after {} completed steps: {}", c.results.len(), e1))
}
/// Every write system call of one history is a point where the process dies (before it, after it,
/// in the middle of it) or the device is full.
pub fn enumerate() -> RunFn {
    Box::new(|seed, trace| {
        let mut f = Facts::new();
        let mut log = vec![];
        let mut res = None;
        let mut more = vec![];
        let s0 = Scratch::new();
        let dry = run_child(&s0.db(), seed, i64::MAX / 2, 0, None);
        let desc = format!("history {} with {} write calls", seed, dry.writes);
        if let Some(e) = judge(&s0.db(), seed, &dry, &mut log, trace) {
            return finish(desc, f, log, seed, Some(("C18", e)));
        }
        if !dry.finished {
            return finish(desc, f, log, seed, Some(("C18", "the process died without a fault".into())));
        }
        drop(s0);
        let mut evals = 1;
        'all: for k in 1..=dry.writes {
            for mode in 0..4u64 {
                // Not every mode at every call; which ones depends on the seed.
                if mode >= 1 && mix(seed ^ k * 7 + mode) % 3 != 0 {
                    continue;
                }
                let s = Scratch::new();
                let c = run_child(&s.db(), seed, k as i64, mode, None);
                evals += 1;
                *f.entry(["killed before a write call", "killed after a write call", "killed in a torn write call", "write calls that failed"][mode as usize]).or_insert(0) += 1;
                if c.results.len() < c.started {
                    *f.entry("operations in flight").or_insert(0) += 1;
                }
                *f.entry("refused operations").or_insert(0) += c.results.iter().filter(|x| !**x).count() as u64;
                more.push(mix(seed ^ k << 8 ^ mode));
                let mut l2 = vec![];
                if let Some(e) = judge(&s.db(), seed, &c, &mut l2, trace) {
                    log.extend(l2);
                    res = Some(("C18", format!("fault {} at write call {}: {}", ["kill before", "kill after", "torn and kill", "device full"][mode as usize], k, e)));
                    break 'all;
                }
            }
        }
        let mut o = finish(desc, f, log, seed, res);
        o.evals = evals;
        o.more = more;
        o
    })
}
/// The process is killed by another one at an arbitrary instant.
pub fn random_kills() -> RunFn {
    Box::new(|seed, trace| {
        let mut r = Rng::new(seed ^ 0x4b1d);
        let us = r.below(20_000) as u64;
        let s = Scratch::new();
        let mut log = vec![];
        let c = run_child(&s.db(), seed, -1, 0, Some(us));
        let mut f = Facts::new();
        f.insert("processes killed", 1);
        f.insert("operations completed before the kill", c.results.len() as u64);
        f.insert("operations in flight", (c.results.len() < c.started) as u64);
        let v = judge(&s.db(), seed, &c, &mut log, trace).map(|e| ("C18", e));
        finish(format!("history {} killed {} us after its first operation began", seed, us), f, log, seed, v)
    })
}
