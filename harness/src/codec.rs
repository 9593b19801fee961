//! Streams through the UniCache encoder and decoders (property C21).
use crate::{
    engine::{Facts, RunFn, RunOut},
    monitor::Violation,
    rng::{mix, Rng},
};
use omnipaxos::{storage::Entry, unicache::UniCache};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{
    fmt::Debug,
    panic::{catch_unwind, AssertUnwindSafe},
};

/// Values of a field: `n` possible ones, chosen uniformly, skewed, in runs or in a cycle.
#[derive(Clone)]
struct Src {
    n: u64,
    mode: u8,
    last: u64,
}
impl Src {
    fn new(r: &mut Rng, size: u64) -> Self {
        let n = match r.below(5) {
            0 => 1,
            1 => size,
            2 => size + 1,
            3 => size * 2 + 1,
            _ => size + 3,
        };
        Src { n, mode: r.below(5) as u8, last: 0 }
    }
    fn next(&mut self, r: &mut Rng) -> u64 {
        let x = match self.mode {
            0 => r.next() % self.n,
            1 => (r.next() % self.n).min(r.next() % self.n).min(r.next() % self.n),
            2 if r.chance(70) => self.last,
            3 => self.last + 1,
            4 if r.chance(15) => r.next() % (self.n * 4),
            4 => r.next() % (self.n / 2).max(1),
            _ => r.next() % self.n,
        };
        self.last = if self.mode == 3 { x % self.n } else { x };
        self.last
    }
}

pub trait Cv: Entry + Clone + Debug + PartialEq + 'static
where
    Self::UniCache: Serialize + DeserializeOwned,
    Self::EncodeResult: Serialize + DeserializeOwned + Clone + Debug,
{
    const NAME: &'static str;
    const JSON: bool;
    const SIZES: &'static [u64];
    /// Eviction policy of each cached field: 'r'ecency or 'f'requency.
    const POLICY: &'static str;
    fn build(v: &[u64]) -> Self;
}
fn s(x: u64) -> String {
    match x % 7 {
        0 => String::new(),
        1 => "é".repeat((x % 50) as usize) + &x.to_string(),
        _ => format!("s{}", x),
    }
    .to_string()
        + if x % 7 == 0 && x > 0 { "z" } else { "" }
        + &if x % 7 == 0 && x > 0 { x.to_string() } else { String::new() }
}

macro_rules! ty {
    ($m:ident, $t:ident, $name:expr, $json:expr, $sizes:expr, $pol:expr, { $($(#[$a:meta])* $f:ident : $ft:ty),* }, $b:expr) => {
        pub mod $m {
            use super::*;
            use omnipaxos::{macros::UniCacheEntry, unicache::*};
            #[derive(UniCacheEntry, Clone, Debug, PartialEq, Serialize, Deserialize)]
            pub struct $t { $($(#[$a])* pub $f: $ft),* }
            impl Cv for $t {
                const NAME: &'static str = $name;
                const JSON: bool = $json;
                const SIZES: &'static [u64] = &$sizes;
                const POLICY: &'static str = $pol;
                fn build(v: &[u64]) -> Self { let f: fn(&[u64]) -> $t = $b; f(v) }
            }
        }
        use $m::$t;
    };
}
ty!(m1, One, "size 1, lru and lfu", true, [1, 1], "rf", {
    #[unicache(encoding(u8), size(1), cache(lru))] a: String,
    #[unicache(encoding(u8), size(1), cache(lfu))] b: String
}, |v| One { a: s(v[0]), b: s(v[1]) });
ty!(m2, Lru8, "u8 lru, default size 255", true, [255], "r", {
    id: u64,
    #[unicache(encoding(u8), cache(lru))] a: u64
}, |v| Lru8 { id: mix(v[0]), a: v[0] });
ty!(m3, Lfu8, "u8 lfu, default size 255", true, [255], "f", {
    #[unicache(encoding(u8), cache(lfu))] a: u64,
    id: u64
}, |v| Lfu8 { id: mix(v[0]), a: v[0] });
ty!(m4, Wide, "u16/u32/u64 encodings, sizes 300, 40, 1000", true, [300, 40, 1000], "rfr", {
    #[unicache(encoding(u16), size(300), cache(lru))] a: String,
    plain: String,
    #[unicache(encoding(u32), size(40), cache(lfu))] b: String,
    #[unicache(encoding(u64), size(1000), cache(lru))] c: u32
}, |v| Wide { a: s(v[0]), plain: s(mix(v[0])), b: s(v[1]), c: v[2] as u32 });
ty!(m5, Defaults, "all defaults", true, [255], "r", {
    #[unicache()] a: String
}, |v| Defaults { a: s(v[0]) });
ty!(m6, Small, "small sizes 2, 3, 4, 7", true, [2, 3, 4, 7], "rffr", {
    #[unicache(encoding(u8), size(2), cache(lru))] a: u64,
    #[unicache(encoding(u8), size(3), cache(lfu))] b: u64,
    id: u64,
    #[unicache(encoding(u16), size(4), cache(lfu))] c: String,
    #[unicache(encoding(u32), size(7), cache(lru))] d: String
}, |v| Small { a: v[0], b: v[1], id: mix(v[3]), c: s(v[2]), d: s(v[3]) });
ty!(m7, Shapes, "signed encodings; fields are vectors, tuples, options", false, [5, 6, 100], "rff", {
    #[unicache(encoding(i8), size(5), cache(lru))] a: Vec<u8>,
    #[unicache(encoding(i32), size(6), cache(lfu))] b: (u8, bool),
    #[unicache(encoding(i8), size(100), cache(lfu))] c: Option<String>,
    last: f64
}, |v| Shapes {
    a: v[0].to_le_bytes()[..(v[0] % 8 + 1) as usize].to_vec(),
    b: (v[1] as u8, v[1] % 2 == 0),
    c: if v[2] == 0 { None } else { Some(s(v[2])) },
    last: v[0] as f64
});
ty!(m8, Partly, "policy, size and encoding left out in turn", true, [3, 4, 255, 2, 5], "frrfr", {
    #[unicache(encoding(u8), size(3), cache(lfu))] a: u64,
    #[unicache(encoding(u16), size(4))] b: u64,
    #[unicache()] c: u64,
    #[unicache(size(2), cache(lfu))] d: String,
    #[unicache(size(5), encoding(u64))] e: String
}, |v| Partly { a: v[0], b: v[1], c: v[2], d: s(v[3]), e: s(v[4]) });

fn hits<E: Debug>(e: &E) -> (u64, u64) {
    let s = format!("{:?}", e);
    let miss = s.matches("NotEncoded(").count() as u64;
    (s.matches("Encoded(").count() as u64 - miss, miss)
}

/// Several caches as the servers of a cluster hold them: one encodes, the others that were handed
/// a copy since decode; the role moves, copies are handed over at arbitrary points.
fn stream<T: Cv>(r: &mut Rng, trace: bool) -> RunOut
where
    T::UniCache: Serialize + DeserializeOwned,
    T::EncodeResult: Serialize + DeserializeOwned + Clone + Debug,
{
    let n = r.range(2, 4);
    let mut caches: Vec<T::UniCache> = (0..n).map(|_| T::UniCache::new()).collect();
    let mut leader = r.below(n);
    // All caches of a new cluster are equal, so all can decode from the start.
    let mut synced = vec![true; n];
    let big = T::SIZES.iter().any(|s| *s > 50);
    let steps = if big { r.range(200, 2500) } else { r.range(20, 400) };
    let handover = *r.pick(&[0u32, 1, 1, 3, 10]);
    let mut src: Vec<Src> = T::SIZES.iter().map(|s| Src::new(r, *s)).collect();
    let mut f: Facts = Facts::new();
    let mut log = vec![];
    let mut hash = 0u64;
    let mut viol = vec![];
    let mut max_vals = std::collections::HashSet::new();
    let desc = format!("{} caches, {} steps, {}% hand-overs, {:?}", T::NAME, steps, handover, src.iter().map(|s| (s.n, s.mode)).collect::<Vec<_>>());
    let sample = r.range(1, 10);
    let res = catch_unwind(AssertUnwindSafe(|| {
        for step in 0..steps {
            if r.chance(handover) {
                // Optionally another cache becomes the encoder; then it hands out copies.
                if r.chance(50) {
                    let old = leader;
                    leader = r.below(n);
                    if leader != old {
                        synced = vec![false; n];
                        *f.entry("encoder role moved").or_insert(0) += 1;
                    }
                }
                for k in 0..n {
                    if k != leader && (r.chance(60) || !synced.iter().enumerate().any(|(i, s)| *s && i != leader)) {
                        let copy = caches[leader].clone();
                        let how = r.below(if T::JSON { 3 } else { 2 });
                        caches[k] = match how {
                            0 => copy,
                            1 => bincode::deserialize(&bincode::serialize(&copy).unwrap()).unwrap(),
                            _ => serde_json::from_str(&serde_json::to_string(&copy).unwrap()).unwrap(),
                        };
                        synced[k] = true;
                        *f.entry(["copies handed over", "copies through bincode", "copies through json"][how]).or_insert(0) += 1;
                        hash = mix(hash ^ (step as u64) << 8 ^ how as u64);
                        if trace {
                            log.push(format!("{} copy {} -> {} ({})", step, leader, k, ["clone", "bincode", "json"][how]));
                        }
                    }
                }
            }
            if r.chance(1) {
                let k = r.below(src.len());
                src[k] = Src::new(r, T::SIZES[k]);
            }
            let vals: Vec<u64> = src.iter_mut().map(|s| s.next(r)).collect();
            hash = mix(hash ^ vals.iter().fold(7, |a, b| mix(a ^ b)));
            let v = T::build(&vals);
            if T::SIZES.len() == 1 || step % 4 == 0 {
                max_vals.insert(vals[0]);
            }
            let e = caches[leader].try_encode(&v);
            if step % sample == 0 {
                let (h, m) = hits(&e);
                *f.entry("encoded fields sampled").or_insert(0) += h;
                *f.entry("unencoded fields sampled").or_insert(0) += m;
            }
            *f.entry("entries encoded").or_insert(0) += 1;
            if trace {
                log.push(format!("{} encode {:?} -> {:?}", step, v, e));
            }
            for k in 0..n {
                if k == leader || !synced[k] {
                    continue;
                }
                let e2 = if r.chance(5) { bincode::deserialize(&bincode::serialize(&e).unwrap()).unwrap() } else { e.clone() };
                let d = caches[k].decode(e2);
                *f.entry("entries decoded").or_insert(0) += 1;
                if d != v {
                    viol.push(Violation { prop: "C21", step, msg: format!("step {}: {:?} was encoded as {:?} and decoded as {:?}", step, v, e, d) });
                    return;
                }
            }
        }
    }));
    if res.is_err() {
        let m = crate::sim::last_panic();
        viol.push(Violation { prop: "C21", step: 0, msg: format!("panic in the cache: {}", m) });
    }
    if max_vals.len() as u64 > T::SIZES[0] {
        f.insert("streams with evictions", 1);
    }
    RunOut { viol, hash, facts: f, log, desc, ..Default::default() }
}
pub fn job() -> RunFn {
    Box::new(|seed, trace| {
        let mut r = Rng::new(seed);
        match r.below(10) {
            0 => stream::<One>(&mut r, trace),
            1 => stream::<Lru8>(&mut r, trace),
            2 => stream::<Lfu8>(&mut r, trace),
            3 => stream::<Wide>(&mut r, trace),
            4 => stream::<Defaults>(&mut r, trace),
            5 | 6 | 7 => stream::<Small>(&mut r, trace),
            8 => stream::<Partly>(&mut r, trace),
            _ => stream::<Shapes>(&mut r, trace),
        }
    })
}

// ---- what is sent encoded (C29) ----------------------------------------------------------------

/// What an encoder with the given size and policy must hold.
enum Model {
    /// Most recently used value last.
    Recent(Vec<u64>),
    /// Uses since insertion, and whether the value is surely present: which of several values with
    /// the lowest number of uses is evicted is open.
    Frequent(std::collections::BTreeMap<u64, (u64, bool)>),
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Expect {
    Encoded,
    Plain,
    Either,
}
impl Model {
    fn new(policy: char) -> Self {
        match policy {
            'r' => Model::Recent(vec![]),
            _ => Model::Frequent(Default::default()),
        }
    }
    fn expect(&self, v: u64) -> Expect {
        match self {
            Model::Recent(l) if l.contains(&v) => Expect::Encoded,
            Model::Recent(_) => Expect::Plain,
            Model::Frequent(m) => match m.get(&v) {
                Some((_, true)) => Expect::Encoded,
                Some(_) => Expect::Either,
                None => Expect::Plain,
            },
        }
    }
    fn used(&mut self, v: u64, encoded: bool, size: usize, distinct: usize) {
        match self {
            Model::Recent(l) => {
                if let Some(k) = l.iter().position(|x| *x == v) {
                    l.remove(k);
                } else if l.len() == size {
                    l.remove(0);
                }
                l.push(v);
            }
            Model::Frequent(m) => {
                if encoded {
                    let e = m.entry(v).or_insert((0, true));
                    e.0 += 1;
                    e.1 = true;
                    return;
                }
                m.remove(&v);
                // `distinct` values were seen before this one; the cache holds as many as fit.
                if distinct >= size {
                    let low = m.values().filter(|e| e.1).map(|e| e.0).min().unwrap_or(u64::MAX);
                    let at_risk: Vec<u64> = m.iter().filter(|(_, e)| e.0 <= low).map(|(k, _)| *k).collect();
                    if at_risk.len() == 1 {
                        m.remove(&at_risk[0]);
                    } else {
                        for k in at_risk {
                            m.get_mut(&k).unwrap().1 = false;
                        }
                    }
                }
                m.insert(v, (0, true));
            }
        }
    }
}
struct Encoder {
    models: Vec<Model>,
    seen: Vec<std::collections::HashSet<u64>>,
    sizes: &'static [u64],
}
impl Encoder {
    fn new<T: Cv>() -> Self
    where
        T::UniCache: Serialize + DeserializeOwned,
        T::EncodeResult: Serialize + DeserializeOwned + Clone + Debug,
    {
        Encoder { models: T::POLICY.chars().map(Model::new).collect(), seen: T::SIZES.iter().map(|_| Default::default()).collect(), sizes: T::SIZES }
    }
    /// Judges one encoded entry; `got[k]` tells whether field `k` was sent encoded.
    fn judge(&mut self, vals: &[u64], got: &[bool], f: &mut Facts) -> Result<(), String> {
        if got.len() != vals.len() {
            return Err(format!("{} of {} cached fields found in the message", got.len(), vals.len()));
        }
        for k in 0..vals.len() {
            let (v, size) = (vals[k], self.sizes[k] as usize);
            let want = self.models[k].expect(v);
            match (want, got[k]) {
                (Expect::Encoded, false) => return Err(format!("value {} of cached field {} must still be in the cache of {}, it was sent in full", v, k, size)),
                (Expect::Plain, true) => return Err(format!("value {} of cached field {} is not among the {} the policy keeps, it was sent encoded", v, k, size)),
                (Expect::Either, _) => *f.entry("fields open by policy").or_insert(0) += 1,
                (Expect::Encoded, _) => *f.entry("fields that must be encoded").or_insert(0) += 1,
                (Expect::Plain, _) => *f.entry("fields that must be sent in full").or_insert(0) += 1,
            }
            let distinct = self.seen[k].len();
            self.models[k].used(v, got[k], size, distinct);
            self.seen[k].insert(v);
        }
        Ok(())
    }
}
fn flags<E: Debug>(e: &E) -> Vec<bool> {
    let s = format!("{:?}", e);
    s.match_indices("Encoded(").map(|(i, _)| !s[..i].ends_with("Not")).collect()
}
fn policy<T: Cv>(r: &mut Rng, trace: bool) -> RunOut
where
    T::UniCache: Serialize + DeserializeOwned,
    T::EncodeResult: Serialize + DeserializeOwned + Clone + Debug,
{
    let big = T::SIZES.iter().any(|s| *s > 50);
    let steps = if big { r.range(200, 2500) } else { r.range(20, 400) };
    let mut src: Vec<Src> = T::SIZES.iter().map(|s| Src::new(r, *s)).collect();
    let desc = format!("{} caches, {} steps, {:?}", T::NAME, steps, src.iter().map(|s| (s.n, s.mode)).collect::<Vec<_>>());
    let (mut f, mut log, mut hash, mut viol) = (Facts::new(), vec![], 0u64, vec![]);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut cache = T::UniCache::new();
        let mut enc = Encoder::new::<T>();
        for step in 0..steps {
            if r.chance(1) {
                let k = r.below(src.len());
                src[k] = Src::new(r, T::SIZES[k]);
            }
            let vals: Vec<u64> = src.iter_mut().map(|s| s.next(r)).collect();
            hash = mix(hash ^ vals.iter().fold(7, |a, b| mix(a ^ b)));
            let e = cache.try_encode(&T::build(&vals));
            if trace {
                log.push(format!("{} encode {:?} -> {:?}", step, vals, e));
            }
            if let Err(m) = enc.judge(&vals, &flags(&e), &mut f) {
                viol.push(Violation { prop: "C29", step, msg: format!("step {}: {}", step, m) });
                return;
            }
        }
    }));
    if res.is_err() {
        viol.push(Violation { prop: "C29", step: 0, msg: format!("panic in the cache: {}", crate::sim::last_panic()) });
    }
    RunOut { viol, hash, facts: f, log, desc, ..Default::default() }
}
/// A stable cluster: what the leader sends to an undisturbed follower.
fn sent<T: Cv>(r: &mut Rng, trace: bool) -> RunOut
where
    T::UniCache: Serialize + DeserializeOwned,
    T::EncodeResult: Serialize + DeserializeOwned + Clone + Debug,
{
    use omnipaxos::{
        messages::{sequence_paxos::PaxosMsg, Message},
        ClusterConfig, OmniPaxos, OmniPaxosConfig, ServerConfig,
    };
    use omnipaxos_storage::memory_storage::MemoryStorage;
    let batch = *r.pick(&[1usize, 1, 2, 3, 7]);
    let steps = r.range(30, 250);
    let disturb = *r.pick(&[0u32, 2, 10]);
    let mut src: Vec<Src> = T::SIZES.iter().map(|s| Src::new(r, *s)).collect();
    let desc = format!("{} caches, cluster of 3, batches of {}, {} entries, another follower reconnects {}%", T::NAME, batch, steps, disturb);
    let (mut f, mut log, mut hash, mut viol) = (Facts::new(), vec![], 0u64, vec![]);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut ops: Vec<OmniPaxos<T, MemoryStorage<T>>> = (1..=3u64)
            .map(|pid| {
                OmniPaxosConfig {
                    cluster_config: ClusterConfig { configuration_id: 1, nodes: vec![1, 2, 3], ..Default::default() },
                    server_config: ServerConfig { pid, batch_size: batch, election_tick_timeout: 1, flush_batch_tick_timeout: 50, ..Default::default() },
                }
                .build(MemoryStorage::default())
                .unwrap()
            })
            .collect();
        let mut enc = Encoder::new::<T>();
        let mut appended: Vec<Vec<u64>> = vec![];
        let mut judged = 0;
        let mut buf = vec![];
        let mut started = false;
        let mut watched = 0u64;
        // Deliver until nothing is left.
        let mut pump = |ops: &mut Vec<OmniPaxos<T, MemoryStorage<T>>>, watched: u64, appended: &Vec<Vec<u64>>, f: &mut Facts, log: &mut Vec<String>| -> Result<(), String> {
            loop {
                let mut any = false;
                for i in 0..3 {
                    ops[i].take_outgoing_messages(&mut buf);
                    for m in buf.drain(..) {
                        any = true;
                        let to = m.get_receiver();
                        if let Message::SequencePaxos(p) = &m {
                            if let PaxosMsg::AcceptDecide(a) = &p.msg {
                                if to == watched {
                                    for e in &a.entries {
                                        let Some(vals) = appended.get(judged) else { return Err("more entries sent than appended".into()) };
                                        if trace {
                                            log.push(format!("sent {:?} as {:?}", vals, e));
                                        }
                                        enc.judge(vals, &flags(e), f).map_err(|m| format!("entry {}: {}", judged, m))?;
                                        judged += 1;
                                        *f.entry("entries sent to the watched follower").or_insert(0) += 1;
                                    }
                                }
                            }
                        }
                        ops[to as usize - 1].handle_incoming(m);
                    }
                }
                if !any {
                    return Ok(());
                }
            }
        };
        let mut lead = 0usize;
        for step in 0..steps + 200 {
            if !started {
                ops.iter_mut().for_each(|o| o.tick());
                if let Err(m) = pump(&mut ops, 0, &appended, &mut f, &mut log) {
                    viol.push(Violation { prop: "C29", step, msg: m });
                    return;
                }
                if let Some((l, true)) = ops[0].get_current_leader() {
                    if ops.iter().all(|o| o.get_current_leader() == Some((l, true))) {
                        started = true;
                        lead = l as usize - 1;
                        watched = (lead as u64 + 1) % 3 + 1;
                    }
                }
                continue;
            }
            if appended.len() >= steps {
                break;
            }
            for _ in 0..r.range(1, 5) {
                let vals: Vec<u64> = src.iter_mut().map(|s| s.next(r)).collect();
                hash = mix(hash ^ vals.iter().fold(7, |a, b| mix(a ^ b)));
                let who = if r.chance(70) { lead } else { watched as usize - 1 };
                let v = T::build(&vals);
                if who != lead {
                    // Everything appended before must reach the leader first.
                    if let Err(m) = pump(&mut ops, watched, &appended, &mut f, &mut log) {
                        viol.push(Violation { prop: "C29", step, msg: m });
                        return;
                    }
                }
                appended.push(vals);
                if ops[who].append(v).is_err() {
                    viol.push(Violation { prop: "C29", step, msg: "append refused".into() });
                    return;
                }
                if who != lead {
                    if let Err(m) = pump(&mut ops, watched, &appended, &mut f, &mut log) {
                        viol.push(Violation { prop: "C29", step, msg: m });
                        return;
                    }
                }
            }
            if r.chance(disturb) {
                let other = (0..3).find(|k| *k != lead && *k as u64 + 1 != watched).unwrap();
                ops[other].reconnected(lead as u64 + 1);
                ops[lead].reconnected(other as u64 + 1);
                *f.entry("reconnections of another follower").or_insert(0) += 1;
            }
            if r.chance(50) {
                if let Err(m) = pump(&mut ops, watched, &appended, &mut f, &mut log) {
                    viol.push(Violation { prop: "C29", step, msg: m });
                    return;
                }
            }
        }
        if !started {
            viol.push(Violation { prop: "C29", step: 0, msg: "no leader".into() });
        }
    }));
    if res.is_err() {
        viol.push(Violation { prop: "C29", step: 0, msg: format!("panic: {}", crate::sim::last_panic()) });
    }
    RunOut { viol, hash, facts: f, log, desc, ..Default::default() }
}
macro_rules! any_type {
    ($f:ident) => {
        Box::new(|seed, trace| {
            let mut r = Rng::new(seed);
            match r.below(12) {
                0 => $f::<One>(&mut r, trace),
                1 => $f::<Lru8>(&mut r, trace),
                2 => $f::<Lfu8>(&mut r, trace),
                3 => $f::<Wide>(&mut r, trace),
                4 => $f::<Defaults>(&mut r, trace),
                5 | 6 | 7 => $f::<Small>(&mut r, trace),
                8 | 9 => $f::<Partly>(&mut r, trace),
                _ => $f::<Shapes>(&mut r, trace),
            }
        })
    };
}
pub fn policies() -> RunFn {
    any_type!(policy)
}
pub fn sendings() -> RunFn {
    any_type!(sent)
}
