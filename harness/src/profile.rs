//! Random cluster configurations and workload mixes.
use crate::{
    rng::Rng,
    sim::{Codec, Comp, Net, SimCfg},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    N,
    NTrim,
    S,
    SSnap,
    SMixed,
    Lru,
    Lfu,
    Mix,
    USnap,
}
impl Kind {
    pub fn comp(self) -> Comp {
        match self {
            Kind::NTrim => Comp::Trim,
            Kind::SSnap | Kind::USnap => Comp::Snap,
            Kind::SMixed => Comp::Mixed,
            _ => Comp::None,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Profile {
    pub kinds: Vec<(u32, Kind)>,
    pub nodes: Vec<usize>,
    pub flexible: u32,
    pub sparse: u32,
    pub prio: u32,
    pub batch: Vec<usize>,
    pub net: Vec<Net>,
    pub codec: Vec<Codec>,
    /// The hash of a history covers every message, write and answer in full.
    pub digest: bool,
    pub reconfig: u32,
    pub crashes: u32,
    pub faults: u32,
    pub elections: u32,
    pub steps: (usize, usize),
    pub read_pct: u32,
    pub ui_pct: u32,
    pub reread_pct: u32,
    pub via: Vec<u8>,
    /// Elections are rare compared to the other timeouts.
    pub calm: bool,
    /// Percentage of clusters with values out of the ordinary (ids, priorities, configuration ids).
    pub odd: u32,
    /// Appends per burst.
    pub burst: (usize, usize),
    /// Every server on its own RocksDB, reopened at every restart (only in builds that have it).
    pub persist: bool,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            kinds: default_kinds(),
            nodes: vec![2, 3, 3, 3, 4, 5, 5, 6, 7],
            flexible: 30,
            sparse: 25,
            prio: 30,
            batch: vec![1, 1, 1, 2, 3, 10],
            net: vec![Net::Sessions, Net::Sessions, Net::Sessions, Net::Lossy, Net::Lossy, Net::Handshake],
            codec: vec![Codec::None],
            digest: false,
            reconfig: 35,
            crashes: 70,
            faults: 15,
            elections: 60,
            steps: (80, 500),
            read_pct: 2,
            ui_pct: 3,
            reread_pct: 2,
            via: vec![0, 0, 1],
            calm: false,
            odd: 10,
            burst: (2, 12),
            persist: false,
        }
    }
}
#[cfg(not(feature = "uc"))]
pub fn default_kinds() -> Vec<(u32, Kind)> {
    vec![(25, Kind::N), (25, Kind::NTrim), (10, Kind::S), (35, Kind::SSnap), (5, Kind::SMixed)]
}
#[cfg(feature = "uc")]
pub fn default_kinds() -> Vec<(u32, Kind)> {
    vec![(30, Kind::Lru), (30, Kind::Lfu), (25, Kind::Mix), (15, Kind::USnap)]
}

impl Profile {
    pub fn gen(&self, r: &mut Rng) -> (Kind, SimCfg) {
        let sum: u32 = self.kinds.iter().map(|k| k.0).sum();
        let mut x = r.below(sum as usize) as u32;
        let mut kind = self.kinds[0].1;
        for (w, k) in &self.kinds {
            if x < *w {
                kind = *k;
                break;
            }
            x -= w;
        }
        let n = *r.pick(&self.nodes);
        let odd = r.chance(self.odd);
        let pids: Vec<u64> = if odd && r.chance(70) {
            // Anything up to a few hundred, in any order.
            let top = *r.pick(&[20, 70, 130, 300, 1100]);
            let mut p: Vec<u64> = vec![];
            while p.len() < n {
                let x = r.range(1, top) as u64;
                if !p.contains(&x) {
                    p.push(x);
                }
            }
            p
        } else if r.chance(self.sparse) {
            let mut all: Vec<u64> = (1..=(n as u64 * 2 + 1)).collect();
            r.shuffle(&mut all);
            all.truncate(n);
            all
        } else {
            (1..=n as u64).collect()
        };
        let fq = if n >= 3 && r.chance(self.flexible) {
            // R + W > n, R >= W >= 2
            let w = r.range(2, n / 2 + 1);
            let rd = r.range((n + 1 - w).max(w), n);
            Some((rd, w))
        } else {
            None
        };
        let b = *r.pick(&self.batch);
        let batch = if b > 1 && r.chance(20) {
            (0..n).map(|_| *r.pick(&self.batch)).collect()
        } else {
            vec![b; n]
        };
        let prio = if odd && r.chance(50) {
            (0..n).map(|_| *r.pick(&[0, 1, 255, 256, 70000, u32::MAX])).collect()
        } else if r.chance(self.prio) { (0..n).map(|_| r.below(3) as u32).collect() } else { vec![0; n] };
        let cfg = SimCfg {
            config_id: if odd && r.chance(50) { *r.pick(&[9, 255, 256, 65535, 1 << 24, u32::MAX - 9]) } else { r.range(1, 3) as u32 },
            pids,
            fq,
            election: if self.calm { r.range(60, 100) } else { r.range(1, 5) } as u64,
            resend: r.range(2, 12) as u64,
            flush: r.range(1, 8) as u64,
            batch,
            prio,
            buffer: *r.pick(&[1, 2, 1000]),
            comp: kind.comp(),
            net: *r.pick(&self.net),
            codec: *r.pick(&self.codec),
            digest: self.digest,
            reconfig: r.chance(self.reconfig),
            crashes: r.chance(self.crashes),
            faults: r.chance(self.faults),
            elections: r.chance(self.elections),
            steps: r.range(self.steps.0, self.steps.1),
            read_pct: self.read_pct,
            ui_pct: self.ui_pct,
            reread_pct: self.reread_pct,
            fault_at: None,
            via: *r.pick(&self.via),
            kept_buffer: r.chance(25),
            burst: self.burst,
            persist: self.persist,
            trace: false,
        };
        (kind, cfg)
    }
}
