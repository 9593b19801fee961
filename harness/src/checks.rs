//! Which executions decide which property.
use crate::{
    engine::*,
    profile::{default_kinds, Kind, Profile},
    scen::{job, Scen},
    sim::{Codec, Net},
};

fn prof() -> Profile {
    Profile::default()
}
#[allow(dead_code)]
fn only(k: &[Kind]) -> Vec<(u32, Kind)> {
    k.iter().map(|k| (1, *k)).collect()
}
/// Longer histories of a few typical cluster sizes.
fn long() -> Profile {
    Profile { steps: (400, 1500), nodes: vec![3, 3, 5], ..prof() }
}
/// Leadership moves all the time.
fn elections() -> Profile {
    Profile { elections: 100, prio: 50, steps: (150, 700), nodes: vec![3, 3, 4, 5], ..prof() }
}
/// Batches, merges of unsent messages, silent losses.
fn batches() -> Profile {
    Profile { batch: vec![2, 3, 5], net: vec![Net::Lossy, Net::Sessions, Net::Handshake], nodes: vec![2, 3, 3, 5], ..prof() }
}
fn crashes() -> Profile {
    Profile { crashes: 100, faults: 40, steps: (150, 700), nodes: vec![3, 3, 4, 5], ..prof() }
}
fn reconfigs() -> Profile {
    Profile { reconfig: 100, steps: (80, 500), ..prof() }
}
/// Long logs and large clusters.
fn large() -> Profile {
    Profile { nodes: vec![3, 3, 5, 9, 12], burst: (100, 1500), batch: vec![1, 1, 40, 300], steps: (60, 200), odd: 25, ..prof() }
}
fn flexible() -> Profile {
    Profile { flexible: 100, nodes: vec![3, 4, 5, 6, 7], ..prof() }
}

fn rounds() -> Profile {
    Profile { nodes: vec![3, 3, 4, 5, 5, 5, 6, 7], crashes: 50, reconfig: 15, faults: 0, ..prof() }
}
const ROUNDS: &str = "3-12 leaderships on request, each among some of the servers, every directed link carries a random number of messages and then stalls or breaks";

fn mk(name: &'static str, p: Profile, sc: Scen, quick: u64, tags: &[&'static str], nt: fn(&Facts) -> bool, rule: &'static str) -> Job {
    Job { name, quick, thorough: quick * 40, run: job(p, sc), tags: tags.to_vec(), nontrivial: nt, rule }
}
const CHAOS: &str = "random cluster (2-7 servers, quorums, timeouts, batch sizes, priorities, compaction) under a random schedule of deliveries, losses, cuts, crashes, storage faults, restarts, appends, compactions, reconfigurations and elections";
const ASSUME: &[&str] = &[
    "links deliver in order per direction and lose only what the model loses; lost connections are announced before progress is demanded",
    "a crashed server restarts with its own storage; messages are produced only by servers of the cluster",
    "storage is the repository's MemoryStorage behind a wrapper that keeps an independent model of it",
];
macro_rules! nt {
    ($($k:literal),+) => {{
        fn f(x: &Facts) -> bool { $(get(x, $k) > 0)&&+ }
        f as fn(&Facts) -> bool
    }};
}

#[cfg(not(any(feature = "uc", feature = "ps", feature = "ui", feature = "lg")))]
pub fn check(id: &str) -> Option<Check> {
    plain(id)
}
/// The properties that need no feature of the library.
#[cfg(not(any(feature = "uc", feature = "ui", feature = "lg")))]
fn plain(id: &str) -> Option<Check> {
    let d = Scen::Chaos;
    let x = "exploration";
    let c = |id: &'static str, level: &'static str, must_return: bool, jobs: Vec<Job>| {
        Some(Check { id, level, jobs, assumptions: ASSUME.to_vec(), must_return })
    };
    // name, profile, scenario, quick runs, rule
    let four = |t: &'static str, nt: fn(&Facts) -> bool, k: u64| {
        vec![
            mk("general", prof(), d, 30 * k, &[t], nt, CHAOS),
            mk("elections", elections(), d, 15 * k, &[t], nt, "as general, elections forced all the time"),
            mk("crashes", crashes(), d, 10 * k, &[t], nt, "as general, with crashes and storage faults"),
            mk("batches", batches(), d, 15 * k, &[t], nt, "as general, batching and silent losses"),
            mk("long", long(), d, 4 * k, &[t], nt, "as general, long histories"),
            mk("large", large(), d, k / 2, &[t], nt, "as general, logs of thousands of entries, batches of hundreds, up to 12 servers"),
            mk("rounds", rounds(), Scen::Rounds, 40 * k, &[t], nt, ROUNDS),
            mk("two sides", Profile { nodes: vec![3, 4, 5, 5, 5, 6, 7], steps: (20, 150), ..prof() }, Scen::Split, 15 * k, &[t], nt, "the leader and a few servers are cut off and go on, the others elect another leader, acknowledgements arrive late in a later round of the first one"),
        ]
    };
    match id {
        "C01" => c("C01", x, false, four("C01", nt!("decided positions compared"), 1000)),
        "C02" => c("C02", x, false, four("C02", nt!("decided positions"), 1000)),
        "C03" => c("C03", x, false, four("C03", nt!("decided entries checked for origin"), 1000)),
        "C04" => {
            let mut v = four("C04", nt!("decided positions"), 800);
            v.push(mk("flexible quorums", flexible(), d, 20000, &["C04"], nt!("decided positions"), "as general, flexible quorums"));
            c("C04", x, false, v)
        }
        "C05" => c("C05", x, false, four("C05", nt!("acknowledgements checked against storage"), 1000)),
        "C06" => c("C06", x, false, four("C06", nt!("deliveries from other rounds"), 1000)),
        "C07" => {
            let mut v = four("C07", nt!("leaders checked at takeover"), 800);
            v.push(mk("flexible quorums", flexible(), d, 20000, &["C07"], nt!("leaders checked at takeover"), "as general, flexible quorums"));
            c("C07", x, false, v)
        }
        "C08" => c("C08", x, false, four("C08", nt!("log pairs compared"), 1000)),
        "C09" => {
            let mut v = four("C09", nt!("stable leaders"), 700);
            v.push(mk(
                "handshake losses",
                Profile { net: vec![Net::Handshake], ..prof() },
                d,
                15000,
                &["C09"],
                nt!("silent losses"),
                "as general, silent losses of handshake messages only",
            ));
            v.push(mk(
                "unannounced losses",
                Profile { net: vec![Net::Lossy], reconfig: 0, steps: (20, 200), ..prof() },
                Scen::Silent,
                20000,
                &["C09"],
                nt!("servers behind without notice"),
                "messages of all kinds get lost and no reconnection is announced; when the losses end, appends at the leader must bring every server up to date",
            ));
            v.push(mk("early appends", prof(), Scen::Early, 10000, &["C09"], nt!("early appends"), "appends to a new cluster before its first leader"));
            c("C09", x, true, v)
        }
        "C10" => c(
            "C10",
            x,
            true,
            vec![mk(
                "flexible quorums",
                Profile { flexible: 100, nodes: vec![3, 3, 4, 4, 5, 5, 5, 5, 6, 6, 7, 7, 9], steps: (20, 250), ..prof() },
                Scen::Partial,
                60000,
                &["C10"],
                nt!("servers outside the quorum-connected set"),
                "the same with flexible quorums: one server reaches a read quorum, or the established leader keeps only a write quorum",
            ), mk(
                "partial connectivity",
                Profile { flexible: 0, nodes: vec![3, 3, 4, 4, 5, 5, 5, 5, 6, 6, 7, 7, 9], steps: (20, 250), ..prof() },
                Scen::Partial,
                100000,
                &["C10"],
                nt!("servers outside the quorum-connected set"),
                "optional hostile part, then a fixed random graph (star, chain, random) in which one server reaches a majority; non-trivial: some server does not",
            )],
        ),
        "C11" => {
            let nt = nt!("stable periods");
            c(
                "C11",
                x,
                true,
                vec![
                    mk(
                        "elections",
                        Profile { prio: 60, steps: (20, 250), nodes: vec![2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 10], ..prof() },
                        Scen::Elect,
                        20000,
                        &["C11"],
                        nt,
                        "fresh cluster or stabilised hostile history; stability over 10-30 election timeouts under load; requests to lead",
                    ),
                    mk(
                        "lost links",
                        Profile { nodes: vec![3, 3, 4, 4, 5, 5, 5, 5, 6, 6, 7, 7, 9], steps: (20, 150), ..prof() },
                        Scen::Kept,
                        20000,
                        &["C11"],
                        nt!("leaders with lost links"),
                        "a settled leader loses links but keeps a write quorum, the other servers keep arbitrary links among themselves",
                    ),
                    mk("general", prof(), d, 20000, &["C11"], nt!("stable leaders"), CHAOS),
                ],
            )
        }
        "C12" => {
            let nt = nt!("reconfigure accepted");
            c(
                "C12",
                x,
                false,
                vec![
                    mk("reconfigurations", reconfigs(), d, 50000, &["C12"], nt, "as general, every run may reconfigure; non-trivial: a request was accepted"),
                    mk("elections", Profile { reconfig: 100, ..elections() }, d, 15000, &["C12"], nt, "with elections all the time"),
                    mk("crashes", Profile { reconfig: 100, ..crashes() }, d, 15000, &["C12"], nt, "with crashes and storage faults"),
                    mk("rounds", Profile { reconfig: 100, ..rounds() }, Scen::Rounds, 15000, &["C12"], nt, ROUNDS),
                    mk("large", Profile { reconfig: 100, ..large() }, d, 600, &["C12"], nt, "as general, logs of thousands of entries, batches of hundreds, up to 12 servers"),
                ],
            )
        }
        "C13" => c(
            "C13",
            x,
            true,
            vec![
                mk(
                    "stable requests",
                    Profile { reconfig: 40, steps: (20, 250), ..prof() },
                    Scen::Reconf,
                    40000,
                    &["C13"],
                    nt!("next configurations started"),
                    "optional hostile part, then requests at arbitrary servers in a stable period (also fresh clusters and restarted servers), then the next configuration runs",
                ),
                mk("admission", reconfigs(), d, 30000, &["C13"], nt!("admission answers checked"), CHAOS),
                mk("large", Profile { reconfig: 100, ..large() }, Scen::Reconf, 300, &["C13"], nt!("next configurations started"), "as general, logs of thousands of entries, batches of hundreds, up to 12 servers"),
            ],
        ),
        "C14" => {
            let nt = nt!("snapshots effective");
            let k = only(&[Kind::SSnap]);
            c(
                "C14",
                x,
                true,
                vec![
                    mk("snapshots", Profile { kinds: k.clone(), ..prof() }, d, 40000, &["C14"], nt, "as general with snapshots; non-trivial: one compacted something"),
                    mk(
                        "snapshots in stable clusters",
                        Profile { kinds: k.clone(), steps: (20, 250), ..prof() },
                        Scen::SnapEnd,
                        12000,
                        &["C14"],
                        nt!("snapshots taken by all"),
                        "hostile part, stabilisation, then requests on any server: a cluster-wide one must be carried out by all, a local one by that server only, one beyond the decided index by nobody",
                    ),
                    mk("elections", Profile { kinds: k.clone(), ..elections() }, d, 15000, &["C14"], nt, "with elections all the time"),
                    mk("crashes", Profile { kinds: k.clone(), ..crashes() }, d, 10000, &["C14"], nt, "with crashes and storage faults"),
                    mk("batches", Profile { kinds: k.clone(), ..batches() }, d, 10000, &["C14"], nt, "with batching"),
                    mk("rounds", Profile { kinds: k, ..rounds() }, Scen::Rounds, 15000, &["C14"], nt, ROUNDS),
                    mk("large", Profile { kinds: only(&[Kind::SSnap]), ..large() }, Scen::SnapEnd, 500, &["C14"], nt, "as general, logs of thousands of entries, batches of hundreds, up to 12 servers"),
                ],
            )
        }
        "C15" => {
            let nt = nt!("trims effective");
            let k = only(&[Kind::NTrim]);
            c(
                "C15",
                x,
                true,
                vec![
                    mk("trims", Profile { kinds: k.clone(), ..prof() }, d, 25000, &["C15"], nt, "as general with trims; non-trivial: one compacted something"),
                    mk(
                        "trims in stable clusters",
                        Profile { kinds: k.clone(), steps: (20, 250), ..prof() },
                        Scen::TrimEnd,
                        20000,
                        &["C15"],
                        nt!("trims applied by all"),
                        "hostile part, stabilisation, then trims that must be refused and trims that must succeed and reach everyone",
                    ),
                    mk("elections", Profile { kinds: k.clone(), ..elections() }, d, 10000, &["C15"], nt, "with elections all the time"),
                    mk("crashes", Profile { kinds: k.clone(), ..crashes() }, d, 10000, &["C15"], nt, "with crashes and storage faults"),
                    mk("rounds", Profile { kinds: k, ..rounds() }, Scen::Rounds, 10000, &["C15"], nt, ROUNDS),
                    mk("large", Profile { kinds: only(&[Kind::NTrim]), ..large() }, Scen::TrimEnd, 500, &["C15"], nt, "as general, logs of thousands of entries, batches of hundreds, up to 12 servers"),
                ],
            )
        }
        "C16" => c(
            "C16",
            x,
            true,
            vec![
                mk(
                    "reads along the way",
                    Profile { read_pct: 50, reread_pct: 10, ..prof() },
                    d,
                    20000,
                    &["C16"],
                    nt!("reads compared"),
                    "as general, random reads (single, range, suffix, out of range, all bound kinds) after every second step",
                ),
                mk(
                    "all reads",
                    Profile { steps: (60, 300), crashes: 30, ..prof() },
                    Scen::Reads,
                    6000,
                    &["C16"],
                    nt!("reads compared"),
                    "all ranges over the log (on a grid for long logs) on every server at the end of a hostile part",
                ),
                mk("large", large(), Scen::Reads, 24, &["C16"], nt!("reads compared"), "as general, logs of thousands of entries, batches of hundreds, up to 12 servers"),
            ],
        ),
        "C19" => c(
            "C19",
            "fault_enumeration",
            true,
            vec![
                mk(
                    "every write",
                    Profile { steps: (20, 90), nodes: vec![2, 3, 3, 4], crashes: 30, faults: 0, ..prof() },
                    Scen::Faults,
                    600,
                    &["C19"],
                    nt!("fault points fired"),
                    "a short random history; every storage write of every server in turn crashes before, crashes after or fails; each is one execution, non-trivial when the fault fired",
                ),
                mk("random faults", Profile { faults: 100, ..crashes() }, d, 40000, &["C19"], nt!("storage writes observed"), "long histories with random storage faults"),
            ],
        ),
        "C22" => {
            let toml = |p: Profile| Profile { via: vec![2], steps: (20, 120), reconfig: 0, ..p };
            c(
                "C22",
                x,
                true,
                vec![
                    Job {
                        name: "configurations",
                        quick: 4000,
                        thorough: 160_000,
                        run: crate::conf::job(),
                        tags: vec!["C22"],
                        nontrivial: nt!("accepted configurations", "refused configurations", "files compared"),
                        rule: "40 random configurations per run in code and 40 in TOML files (fields omitted, both table styles, malformed, missing), boundary and extreme values; verdict, kind of error and values against the documented rules",
                    },
                    mk("timers", toml(Profile { batch: vec![8, 40], ..prof() }), Scen::Timers, 10000, &["C22", "C24"], nt!("timer observations"), "servers built from TOML files must use the configured ticks"),
                    mk("batch sizes", toml(Profile { batch: vec![1, 2, 3, 5, 10], ..prof() }), Scen::Batch, 5000, &["C22", "C24"], nt!("partial batches"), "servers built from TOML files must use the configured batch size"),
                    mk("priorities", toml(Profile { prio: 60, ..prof() }), Scen::Elect, 4000, &["C22", "C11"], nt!("stable periods"), "servers built from TOML files must use the configured priorities"),
                    mk("quorums", toml(flexible()), d, 10000, &["C22", "C04", "C07", "C09"], nt!("decided positions"), "servers built from TOML files must use the configured quorums"),
                ],
            )
        }
        "C23" => c(
            "C23",
            x,
            false,
            vec![
                mk("twins", prof(), Scen::Twin, 8000, &["C23"], nt!("messages round-tripped"), "the same history with messages in memory and through bincode or JSON must be identical"),
                mk(
                    "round trips",
                    Profile { codec: vec![Codec::Bincode, Codec::Json], ..reconfigs() },
                    d,
                    8000,
                    &["C23"],
                    nt!("messages round-tripped"),
                    "as general, every message is serialised, deserialised and compared",
                ),
            ],
        ),
        "C24" => c(
            "C24",
            x,
            false,
            vec![
                mk(
                    "timers",
                    Profile { steps: (20, 100), batch: vec![8, 40], reconfig: 0, ..prof() },
                    Scen::Timers,
                    30000,
                    &["C24"],
                    nt!("timer observations"),
                    "one server in each role (new, restarted, candidate, promised, stopping leader, batching leader) whose peers are silent; ticks of every emission",
                ),
                mk(
                    "latency",
                    Profile { batch: vec![1, 1, 2, 2, 3, 3, 5, 5, 10, 70], reconfig: 0, ..prof() },
                    Scen::Batch,
                    15000,
                    &["C24"],
                    nt!("partial batches"),
                    "stable cluster with random clock phases; batched entries must be decided in time and in order",
                ),
                mk(
                    "uneven",
                    Profile { batch: vec![2, 3, 5, 10], nodes: vec![3, 3, 4, 5, 6], reconfig: 0, calm: true, ..prof() },
                    Scen::Batch,
                    80000,
                    &["C24"],
                    nt!("uneven batches"),
                    "as latency, with clocks and links that run unevenly while entries are appended; then all links run, some servers are gone",
                ),
            ],
        ),
        "C25" => c(
            "C25",
            x,
            false,
            vec![
                mk("general", Profile { ui_pct: 60, ..prof() }, d, 30000, &["C25"], nt!("status reports checked"), CHAOS),
                mk("elections", Profile { ui_pct: 60, ..elections() }, d, 20000, &["C25"], nt!("status reports checked"), "with elections all the time"),
                mk("large", Profile { ui_pct: 20, ..large() }, d, 500, &["C25"], nt!("status reports checked"), "as general, logs of thousands of entries, batches of hundreds, up to 12 servers"),
            ],
        ),
        "C26" => {
            let mut v = four("C26", nt!("deliveries"), 800);
            v.push(mk(
                "reads",
                Profile { read_pct: 40, ui_pct: 10, kinds: default_kinds(), ..prof() },
                d,
                15000,
                &["C26"],
                nt!("reads compared"),
                "with random reads in and out of range",
            ));
            v.push(mk("next configurations", Profile { steps: (20, 200), ..prof() }, Scen::Reconf, 5000, &["C26"], nt!("deliveries"), "through a reconfiguration"));
            c("C26", x, true, v)
        }
        _ => None,
    }
}
#[cfg(feature = "uc")]
pub fn check(id: &str) -> Option<Check> {
    // With the feature on, every one of these is a visible effect of the encoding.
    const T: &[&str] = &["C20", "C01", "C02", "C03", "C08", "C09", "C26"];
    match id {
        "C20" => {
            let nt = nt!("decided positions compared");
            let d = Scen::Chaos;
            let codecs = vec![Codec::None, Codec::Bincode, Codec::Json];
            Some(Check {
                id: "C20",
                level: "exploration",
                jobs: vec![
                    mk("general", Profile { codec: codecs.clone(), ..prof() }, d, 15000, T, nt, CHAOS),
                    mk("batches", batches(), d, 20000, T, nt, "as general, batching and silent losses"),
                    mk("elections", elections(), d, 15000, T, nt, "as general, elections forced all the time"),
                    mk("crashes", crashes(), d, 10000, T, nt, "as general, with crashes and storage faults"),
                    mk("long", Profile { codec: codecs, ..long() }, d, 4000, T, nt, "as general, long histories"),
                    mk("rounds", rounds(), Scen::Rounds, 10000, T, nt, ROUNDS),
                    mk("large", large(), d, 400, T, nt, "as general, logs of thousands of entries, batches of hundreds, up to 12 servers"),
                ],
                assumptions: ASSUME.to_vec(),
                must_return: true,
            })
        }
        // Parts of checks whose other part needs no feature.
        "C23" => Some(Check {
            id: "C23",
            level: "exploration",
            jobs: vec![
                mk("UniCache twins", prof(), Scen::Twin, 4000, &["C23"], nt!("messages round-tripped"), "with entry caching: the same history with messages in memory and through bincode or JSON must be identical"),
                mk(
                    "UniCache round trips",
                    Profile { codec: vec![Codec::Bincode, Codec::Json], ..reconfigs() },
                    Scen::Chaos,
                    4000,
                    &["C23"],
                    nt!("messages round-tripped"),
                    "with entry caching: every message is serialised, deserialised and compared",
                ),
            ],
            assumptions: ASSUME.to_vec(),
            must_return: false,
        }),
        "C26" => Some(Check {
            id: "C26",
            level: "exploration",
            jobs: vec![
                mk("UniCache", prof(), Scen::Chaos, 10000, &["C26"], nt!("deliveries"), "with entry caching: as general"),
                mk("UniCache elections", elections(), Scen::Chaos, 6000, &["C26"], nt!("deliveries"), "with entry caching: elections forced all the time"),
                mk("UniCache batches", batches(), Scen::Chaos, 6000, &["C26"], nt!("deliveries"), "with entry caching: batching and silent losses"),
                mk("UniCache rounds", rounds(), Scen::Rounds, 8000, &["C26"], nt!("deliveries"), ROUNDS),
            ],
            assumptions: ASSUME.to_vec(),
            must_return: true,
        }),
        "C21" => Some(Check {
            id: "C21",
            level: "exploration",
            jobs: vec![Job {
                name: "streams",
                quick: 60000,
                thorough: 2_400_000,
                run: crate::codec::job(),
                tags: vec!["C21"],
                nontrivial: nt!("entries decoded", "streams with evictions"),
                rule: "2-4 caches; one encodes a random stream (uniform, skewed, runs, cycles, drifting; fewer or more values than the cache holds), all others that hold a copy decode it; the role moves and copies are handed over at arbitrary points directly, through bincode or through JSON; non-trivial: more values than the first cache holds",
            }],
            assumptions: vec!["a copy is made by cloning the encoder's cache, as the leader does", "values that implement Eq and Hash consistently"],
            must_return: true,
        }),
        "C29" => Some(Check {
            id: "C29",
            level: "exploration",
            jobs: vec![
                Job {
                    name: "encoders",
                    quick: 40000,
                    thorough: 1_600_000,
                    run: crate::codec::policies(),
                    tags: vec!["C29"],
                    nontrivial: nt!("fields that must be encoded", "fields that must be sent in full"),
                    rule: "random streams through the encoders of derived entry types (policy, size and encoding given or left out): each field of each entry must be encoded or sent in full as a model of the declared policy and size says",
                },
                Job {
                    name: "clusters",
                    quick: 6000,
                    thorough: 240_000,
                    run: crate::codec::sendings(),
                    tags: vec!["C29"],
                    nontrivial: nt!("fields that must be encoded", "entries sent to the watched follower"),
                    rule: "three real servers with a stable leader, appends at the leader and at a follower, batches, another follower that reconnects: what the leader sends to an undisturbed follower, against the same model",
                },
            ],
            assumptions: vec!["which of several least frequently used values is evicted is open", "the leader does not change"],
            must_return: true,
        }),
        _ => None,
    }
}
#[cfg(all(feature = "ps", not(feature = "uc")))]
pub fn check(id: &str) -> Option<Check> {
    use crate::stor;
    let j = |name, quick, thorough, run, tag, nontrivial, rule| Job { name, quick, thorough, run, tags: vec![tag], nontrivial, rule };
    match id {
        "C17" => Some(Check {
            id: "C17",
            level: "exploration",
            jobs: vec![
                j("memory", 100_000, 4_000_000, stor::job(false, 0, 0, "C17"), "C17", nt!("states with a removed prefix", "atomic groups"),
                  "random history of single calls and atomic groups (appends, overwrites, trims, log synchronisations beyond the end, all fields); after each step all getters and random ranges, also outside the log, against the model"),
                j("persistent", 4000, 160_000, stor::job(true, 2, 0, "C17"), "C17", nt!("states with a removed prefix", "atomic groups"),
                  "the same on RocksDB with default and with small buffers, sometimes reopened"),
            ],
            assumptions: vec!["single-threaded use, as the library does", "a trim comes with the compacted index, as the library writes it"],
            must_return: true,
        }),
        "C18" => Some(Check {
            id: "C18",
            level: "fault_enumeration",
            jobs: vec![
                Job {
                    tags: vec!["C18", "C17", "C19", "C01", "C02", "C04", "C09", "C26"],
                    ..mk(
                        "clusters",
                        Profile { persist: true, steps: (80, 350), nodes: vec![2, 3, 3, 5], crashes: 100, faults: 30, ..prof() },
                        Scen::Chaos,
                        500,
                        &[],
                        nt!("restarts"),
                        "random clusters as for the protocol properties, every server on its own RocksDB that is reopened and compared at every restart",
                    )
                },
                j("reopenings and refused operations", 600, 40_000, stor::job(true, 25, 15, "C18"), "C18", nt!("reopenings", "refused operations"),
                  "random histories; a quarter of the steps reopen the storage, some operations contain a value that cannot be serialised and must leave no trace"),
                j("openings", 150, 8000, stor::openings(), "C18", nt!("configured options seen in use", "existing storages refused as new"),
                  "configurations made in every way the interface offers, with own options of the database and of the log: the configured path and options are in use, a new storage is refused where one exists and leaves it as it was"),
                j("every write call", 20, 1500, stor::enumerate(), "C18", nt!("operations in flight"),
                  "a child process runs a random history on the real file system; at each of its write system calls it dies before, after or in the middle of it, or the device is full; the storage is then reopened and compared with the model"),
                j("random kills", 200, 10_000, stor::random_kills(), "C18", nt!("operations in flight"),
                  "a child process is killed with SIGKILL at an arbitrary instant"),
            ],
            assumptions: vec!["process kills, not power failures: the operating system keeps what was written", "RocksDB works as documented"],
            must_return: true,
        }),
        _ => {
            let mut c = plain(id)?;
            c.jobs.extend(persistent(c.id));
            Some(c)
        }
    }
}
/// The same properties with every server on the persistent storage.
#[cfg(all(feature = "ps", not(feature = "uc")))]
fn persistent(id: &'static str) -> Vec<Job> {
    let p = |p: Profile| Profile { persist: true, nodes: vec![2, 3, 3, 3, 5], steps: (60, 300), crashes: 100, faults: 20, ..p };
    let k = |k: Kind| Profile { kinds: only(&[k]), ..prof() };
    let (prof, scen, runs, nt) = match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C26" => (Profile { elections: 90, ..p(prof()) }, Scen::Chaos, 400, nt!("restarts")),
        "C12" => (p(reconfigs()), Scen::Chaos, 800, nt!("restarts", "reconfigure accepted")),
        "C13" => (p(reconfigs()), Scen::Reconf, 300, nt!("next configurations started")),
        "C14" => (p(k(Kind::SSnap)), Scen::SnapEnd, 300, nt!("restarts", "snapshots effective")),
        "C15" => (p(k(Kind::NTrim)), Scen::TrimEnd, 300, nt!("restarts", "trims effective")),
        "C16" => (p(Profile { read_pct: 10, ..prof() }), Scen::Reads, 200, nt!("reads compared")),
        "C19" => (Profile { steps: (20, 60), nodes: vec![2, 3], ..p(prof()) }, Scen::Faults, 20, nt!("fault points fired")),
        _ => return vec![],
    };
    let mut v = vec![mk("persistent storage", prof.clone(), scen, runs, &[id], nt, "the same on RocksDB; at every restart it is reopened, mostly as a kill of the process leaves it, and compared")];
    if scen == Scen::Chaos {
        v.push(mk("persistent storage, rounds", Profile { faults: 0, ..prof }, Scen::Rounds, runs, &[id], nt!("storage writes observed"), ROUNDS));
    }
    v
}
#[cfg(feature = "ui")]
pub fn check(id: &str) -> Option<Check> {
    let j = |name, quick, thorough, made_up, rule| Job {
        name,
        quick,
        thorough,
        run: crate::ui::job(made_up),
        tags: vec!["C27"],
        nontrivial: nt!("screens compared"),
        rule,
    };
    match id {
        "C27" => Some(Check {
            id: "C27",
            level: "exploration",
            jobs: vec![
                j("clusters", 1000, 60_000, false, "the dashboard of a server of a random cluster under a random schedule (crashes, partitions, elections, appends) on a pseudo terminal, with resizes, keys, stops and starts; the screen after each report against the report; non-trivial: a whole screen was compared"),
                j("made-up reports", 1000, 60_000, true, "the same with reports of large numbers and arbitrary leaders and acceptance"),
            ],
            assumptions: vec!["a terminal of at least 170 columns and enough rows for the comparison, in smaller ones only that nothing fails", "one dashboard at a time per terminal"],
            must_return: true,
        }),
        _ => None,
    }
}

/// Histories that must go the same way with and without logging.
#[cfg(not(any(feature = "uc", feature = "ps", feature = "ui")))]
pub fn logged() -> Vec<(&'static str, Profile, Scen)> {
    let d = |p: Profile| Profile { digest: true, ..p };
    vec![
        ("general", d(prof()), Scen::Chaos),
        ("batches", d(batches()), Scen::Chaos),
        ("elections", d(elections()), Scen::Chaos),
        ("crashes", d(crashes()), Scen::Chaos),
        ("rounds", d(rounds()), Scen::Rounds),
        ("next configurations", d(Profile { steps: (20, 200), ..prof() }), Scen::Reconf),
        ("partial connectivity", d(Profile { steps: (20, 200), ..prof() }), Scen::Partial),
    ]
}
#[cfg(feature = "lg")]
pub fn check(id: &str) -> Option<Check> {
    if id != "C28" {
        return None;
    }
    const Q: [u64; 7] = [2500, 2500, 2500, 1500, 1500, 1000, 1000];
    let mut jobs: Vec<Job> = logged()
        .into_iter()
        .enumerate()
        .map(|(k, (name, _, _))| Job {
            name,
            quick: Q[k],
            thorough: Q[k] * 40,
            run: crate::lg::job(k),
            tags: vec!["C28"],
            nontrivial: nt!("log records"),
            rule: "a random cluster under a random hostile schedule, run with a logger that formats every record and, in a build without the feature, without; every message, storage write and reported state must be the same",
        })
        .collect();
    jobs.push(Job {
        name: "log files",
        quick: 150,
        thorough: 6000,
        run: crate::lg::files(),
        tags: vec!["C28"],
        nontrivial: nt!("records compared"),
        rule: "one server of a random cluster uses the default logger (default path, relative, in missing folders, absolute), the others a custom one; the file (new, or the log of an earlier run) and the terminal must show exactly the records a custom logger gets in the same history",
    });
    jobs.push(Job {
        name: "bursts of records",
        quick: 40,
        thorough: 1500,
        run: crate::lg::bursts(),
        tags: vec!["C28"],
        nontrivial: nt!("burst records in the file"),
        rule: "hundreds to thousands of records at once in the default logger: those shown in the file and on the terminal are whole and in order, and as many as are missing are reported as dropped",
    });
    Some(Check {
        id: "C28",
        level: "exploration",
        jobs,
        assumptions: vec!["records that the asynchronous logger reports as dropped may be missing", "the log file can be created"],
        must_return: true,
    })
}
