//! The dashboard on a pseudo terminal (property C27). A child process drives it with the reports
//! of a server of a simulated cluster and tells, in the same byte stream, what was reported; the
//! parent interprets the stream as a terminal does and compares the screen.
use crate::{
    engine::{Facts, RunFn, RunOut},
    entry::ValN,
    monitor::Violation,
    profile::{Kind, Profile},
    rng::{mix, Rng},
    sim::{last_panic, Sim},
};
use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::ballot_leader_election::HeartbeatReply,
    utils::ui::{ClusterState, OmniPaxosStates},
    ClusterConfig, OmniPaxosConfig, ServerConfig,
};
use omnipaxos_ui::OmniPaxosUI;
use serde_json::{json, Value};
use std::{
    io::Write,
    os::fd::{AsRawFd, FromRawFd, OwnedFd},
    os::unix::process::CommandExt,
    panic::{catch_unwind, AssertUnwindSafe},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- the child

fn say(v: Value) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(format!("\x1b]999;{}\x07", v).as_bytes());
    let _ = o.flush();
}
fn termios() -> Vec<u8> {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(0, &mut t);
        format!("{:x} {:x} {:x} {:x} {:?}", t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc).into_bytes()
    }
}
fn set_size(w: u16, h: u16) {
    unsafe {
        let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(1, libc::TIOCSWINSZ, &ws);
    }
    say(json!({"k": "size", "w": w, "h": h}));
}
fn wait_input() -> bool {
    unsafe {
        let mut p = libc::pollfd { fd: 0, events: libc::POLLIN, revents: 0 };
        libc::poll(&mut p, 1, 20_000) == 1
    }
}
/// Where the reports come from.
enum Src {
    Cluster(Sim<ValN>),
    /// Reports made up within what a server can report, with large numbers.
    MadeUp { pids: Vec<u64>, decided: Vec<usize>, led: Vec<bool>, ballot: u32 },
}
impl Src {
    fn pids(&self) -> Vec<u64> {
        match self {
            Src::Cluster(s) => s.cfg.pids.clone(),
            Src::MadeUp { pids, .. } => pids.clone(),
        }
    }
    fn report(&mut self, i: usize, r: &mut Rng) -> Option<OmniPaxosStates> {
        match self {
            Src::Cluster(s) => s.nodes[i].op.as_ref().map(|o| o.get_ui_states()),
            Src::MadeUp { pids, decided, led, ballot } => {
                decided[i] += *r.pick(&[0, 0, 1, 7, 99, 100, 999, 1000, 54321]);
                *ballot += r.below(3) as u32;
                let b = |n: u32, pid: u64| Ballot { config_id: 1, n, priority: 0, pid };
                let leader = match r.below(5) {
                    // A server that has promised a ballot once always knows a leader.
                    0 if !led[i] => None,
                    1 | 2 => Some(pids[i]),
                    _ => Some(*r.pick(pids)),
                };
                led[i] |= leader.is_some();
                let mut hb: Vec<HeartbeatReply> = vec![];
                for j in 0..pids.len() {
                    if j != i && r.chance(70) {
                        hb.push(HeartbeatReply { round: 1, ballot: b(*ballot + r.below(1000) as u32, pids[j]), leader: b(*ballot, *r.pick(pids)), happy: true });
                    }
                }
                let max = *pids.iter().max().unwrap() as usize;
                let mut acc = vec![0; max + 1];
                let top = decided[i] + r.below(300);
                if r.chance(85) {
                    for p in pids.iter() {
                        acc[*p as usize] = *r.pick(&[0, top, top, top / 2, top / 3, top.saturating_sub(1), top * 99 / 100]);
                    }
                    acc[pids[i] as usize] = top;
                }
                Some(OmniPaxosStates {
                    current_ballot: b(*ballot, pids[i]),
                    current_leader: leader,
                    decided_idx: decided[i],
                    heartbeats: hb.clone(),
                    cluster_state: ClusterState { accepted_indexes: acc, heartbeats: hb },
                })
            }
        }
    }
    fn advance(&mut self, calm: bool, r: &mut Rng) {
        if let Src::Cluster(s) = self {
            if calm {
                s.round();
                let i = r.below(s.cfg.n());
                if r.chance(40) && s.nodes[i].op.is_some() {
                    s.append(i);
                }
            } else {
                s.cfg.steps = r.range(1, 25);
                s.chaos();
            }
        }
    }
}
pub fn child(a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let made_up = a[1] == "1";
    let trace = a[2] == "1";
    let mut r = Rng::new(seed);
    let term0 = termios();
    let p = Profile { kinds: vec![(1, Kind::NTrim)], nodes: vec![2, 3, 3, 5, 7, 9], sparse: 30, reconfig: 10, ui_pct: 0, read_pct: 0, reread_pct: 0, ..Profile::default() };
    let (_, mut cfg) = p.gen(&mut r);
    cfg.faults = false;
    let cc = ClusterConfig { configuration_id: 1, nodes: cfg.pids.clone(), flexible_quorum: None };
    let n = cfg.n();
    let mut src = if made_up {
        Src::MadeUp { pids: cfg.pids.clone(), decided: vec![0; n], led: vec![false; n], ballot: r.below(3) as u32 }
    } else {
        let mut s = Sim::new(cfg, r.next());
        s.boot();
        Src::Cluster(s)
    };
    let pids = src.pids();
    let need_h = 21 + (4 + 2 * (n - 1)).max(12) as u16;
    let big = |r: &mut Rng| (r.range(170, 280) as u16, r.range(need_h as usize, need_h as usize + 30) as u16);
    let (w, h) = big(&mut r);
    set_size(w, h);
    let mut full = true;
    let mut me = r.below(n);
    let make = |me: usize| {
        OmniPaxosUI::with(
            OmniPaxosConfig { cluster_config: cc.clone(), server_config: ServerConfig { pid: pids[me], ..Default::default() } }.into(),
        )
    };
    macro_rules! ui {
        ($what:expr, $e:expr) => {
            match catch_unwind(AssertUnwindSafe(|| $e)) {
                Ok(x) => x,
                Err(_) => {
                    say(json!({"k": "x", "m": format!("{} failed: {}", $what, last_panic())}));
                    return 0;
                }
            }
        };
    }
    let mut ui = ui!("creating the dashboard", make(me));
    let mut started = false;
    let mut history: Vec<usize> = vec![];
    let mut last_dec = 0;
    let mut calm_ticks = 0;
    let steps = r.range(15, 50);
    let calm_from = r.range(8, steps);
    for k in 0..steps {
        src.advance(k >= calm_from && r.chance(80), &mut r);
        if k == calm_from {
            if let Src::Cluster(s) = &mut src {
                s.stabilize();
            }
        }
        let note = |m: String| {
            if trace {
                say(json!({"k": "note", "m": m}));
            }
        };
        if !started && (k == 0 || r.chance(40)) {
            note(format!("{}: start", k));
            ui!("start", ui.start());
            if r.chance(10) {
                ui!("a second start", ui.start());
            }
            started = true;
            say(json!({"k": "started"}));
        } else if started && r.chance(6) {
            note(format!("{}: stop", k));
            ui!("stop", ui.stop());
            if r.chance(10) {
                ui!("a second stop", ui.stop());
            }
            started = false;
            say(json!({"k": "stopped", "same": termios() == term0}));
        } else if r.chance(4) {
            let reuse = !started && r.chance(50);
            note(format!("{}: another dashboard", k));
            if started {
                ui!("stop", ui.stop());
                say(json!({"k": "stopped", "same": termios() == term0}));
            }
            started = false;
            if !reuse {
                me = r.below(n);
            }
            ui = ui!("creating a second dashboard", make(me));
            history.clear();
            last_dec = 0;
        }
        if ui.is_started() != started {
            say(json!({"k": "x", "m": format!("is_started() is {} after {} calls of start", ui.is_started(), if started { "successful" } else { "no" })}));
            return 0;
        }
        if r.chance(8) {
            full = r.chance(70);
            let (w, h) = if full { big(&mut r) } else { (r.range(1, 170) as u16, r.range(1, need_h as usize) as u16) };
            note(format!("{}: size {}x{}", k, w, h));
            set_size(w, h);
            calm_ticks = 0;
        }
        let Some(st) = src.report(me, &mut r) else { continue };
        let mut key = None;
        // Not right after a resize: crossterm loses the wakeup for a key that arrives together with one.
        if started && calm_ticks >= 2 && r.chance(15) {
            let c = *r.pick(&["q", "\x1b", "x", " ", "Q", "5"]);
            note(format!("{}: key {:?}", k, c));
            say(json!({"k": "key", "c": c}));
            if wait_input() {
                key = Some(c);
            }
        }
        let s2 = OmniPaxosStates {
            current_ballot: st.current_ballot,
            current_leader: st.current_leader,
            decided_idx: st.decided_idx,
            heartbeats: st.heartbeats.clone(),
            cluster_state: st.cluster_state.clone(),
        };
        let lead = st.current_leader == Some(pids[me]);
        let acc = |p: u64| st.cluster_state.accepted_indexes.get(p as usize).copied().unwrap_or(0);
        let mut sorted = pids.clone();
        sorted.sort();
        let peers: Vec<Value> = sorted
            .iter()
            .filter(|p| **p != pids[me])
            .map(|p| {
                let hb = st.cluster_state.heartbeats.iter().find(|h| h.ballot.pid == *p);
                let own = acc(pids[me]);
                let pct = if own == 0 { 0.0 } else { (acc(*p) as f64 / own as f64 * 100.0).round() };
                json!({"pid": p, "up": hb.is_some(), "ballot": hb.map(|h| h.ballot.n), "leader": hb.map(|h| h.leader.pid), "acc": acc(*p), "pct": pct as u64})
            })
            .collect();
        if started {
            calm_ticks += 1;
            history.insert(0, st.decided_idx - last_dec);
            last_dec = st.decided_idx;
        }
        say(json!({"k": "quiet"}));
        ui!(format!("tick with a report (leader {:?}, accepted {:?})", st.current_leader, st.cluster_state.accepted_indexes), ui.tick(s2));
        if matches!(key, Some("q") | Some("\x1b")) {
            started = false;
            // One event is handled per tick; resizes and other keys may be queued before this one.
            for _ in 0..20 {
                if ui.is_started() {
                    let same = OmniPaxosStates {
                        current_ballot: st.current_ballot,
                        current_leader: st.current_leader,
                        decided_idx: st.decided_idx,
                        heartbeats: st.heartbeats.clone(),
                        cluster_state: st.cluster_state.clone(),
                    };
                    history.insert(0, 0);
                    ui!("tick", ui.tick(same));
                }
            }
            if ui.is_started() {
                say(json!({"k": "x", "m": format!("the dashboard did not stop at key {:?}", key)}));
                return 0;
            }
            say(json!({"k": "stopped", "same": termios() == term0}));
            continue;
        }
        if ui.is_started() != started {
            say(json!({"k": "x", "m": format!("is_started() is {} after a tick with key {:?}, before it was {}", ui.is_started(), key, started)}));
            return 0;
        }
        if !started {
            say(json!({"k": "silent"}));
            continue;
        }
        say(json!({"k": "frame", "full": full, "id": pids[me], "lead": lead, "leader": st.current_leader, "ballot": st.current_ballot.n,
            "decided": st.decided_idx, "acc": acc(pids[me]), "nodes": sorted, "peers": peers,
            "hist": history.iter().take(8).collect::<Vec<_>>()}));
    }
    if started {
        ui!("stop", ui.stop());
        say(json!({"k": "stopped", "same": termios() == term0}));
    }
    say(json!({"k": "end"}));
    0
}

// ---------------------------------------------------------------- the terminal

#[derive(Default)]
struct Term {
    w: usize,
    h: usize,
    x: usize,
    y: usize,
    cells: Vec<Vec<String>>,
    alt: bool,
    hidden: bool,
    mouse: Vec<String>,
    buf: Vec<u8>,
    /// Bytes other than our own messages since the last `quiet`.
    drawn: u64,
    total: u64,
    replies: Vec<u8>,
    unknown: Option<String>,
}
impl Term {
    fn clear(&mut self) {
        self.cells = vec![vec![" ".to_string(); self.w]; self.h];
    }
    fn resize(&mut self, w: usize, h: usize) {
        (self.w, self.h) = (w, h);
        let old = std::mem::take(&mut self.cells);
        self.clear();
        for (y, row) in old.into_iter().enumerate().take(h) {
            for (x, c) in row.into_iter().enumerate().take(w) {
                self.cells[y][x] = c;
            }
        }
        self.x = self.x.min(w.saturating_sub(1));
        self.y = self.y.min(h.saturating_sub(1));
    }
    fn put(&mut self, c: char) {
        let wide = matches!(c, '\u{2705}' | '\u{274c}' | '\u{2753}');
        if self.y < self.h && self.x < self.w {
            self.cells[self.y][self.x] = c.to_string();
            if wide && self.x + 1 < self.w {
                self.cells[self.y][self.x + 1] = String::new();
            }
        }
        self.x = (self.x + 1 + wide as usize).min(self.w);
    }
    fn csi(&mut self, params: &str, fin: char) {
        let n = |i: usize, d: usize| params.split(';').nth(i).and_then(|s| s.parse::<usize>().ok()).filter(|v| *v > 0).unwrap_or(d);
        match (fin, params) {
            ('H', _) | ('f', _) => {
                self.y = (n(0, 1) - 1).min(self.h.saturating_sub(1));
                self.x = (n(1, 1) - 1).min(self.w.saturating_sub(1));
            }
            ('A', _) => self.y = self.y.saturating_sub(n(0, 1)),
            ('B', _) => self.y = (self.y + n(0, 1)).min(self.h.saturating_sub(1)),
            ('C', _) => self.x = (self.x + n(0, 1)).min(self.w.saturating_sub(1)),
            ('D', _) => self.x = self.x.saturating_sub(n(0, 1)),
            ('G', _) => self.x = (n(0, 1) - 1).min(self.w.saturating_sub(1)),
            ('m', _) => (),
            ('J', "2") | ('J', "3") => self.clear(),
            ('J', "") | ('J', "0") => {
                let (x, y) = (self.x, self.y);
                for (yy, row) in self.cells.iter_mut().enumerate() {
                    for (xx, c) in row.iter_mut().enumerate() {
                        if (yy, xx) >= (y, x) {
                            *c = " ".into();
                        }
                    }
                }
            }
            ('K', _) => {
                let x = self.x;
                if let Some(row) = self.cells.get_mut(self.y) {
                    for c in row.iter_mut().skip(if params == "2" { 0 } else { x }) {
                        *c = " ".into();
                    }
                }
            }
            ('n', "6") => self.replies.extend(format!("\x1b[{};{}R", self.y + 1, self.x + 1).as_bytes()),
            ('h', p) | ('l', p) if p.starts_with('?') => {
                let on = fin == 'h';
                for m in p[1..].split(';') {
                    match m {
                        "1049" | "47" | "1047" => {
                            if on != self.alt {
                                self.clear();
                            }
                            self.alt = on;
                        }
                        "25" => self.hidden = !on,
                        m => {
                            self.mouse.retain(|x| x != m);
                            if on {
                                self.mouse.push(m.to_string());
                            }
                        }
                    }
                }
            }
            _ => self.unknown = Some(format!("CSI {} {}", params, fin)),
        }
    }
    /// Interprets what has arrived; returns the first of our messages in it.
    fn next(&mut self) -> Option<Value> {
        let mut i = 0;
        let b = std::mem::take(&mut self.buf);
        let mut msg = None;
        while i < b.len() {
            match b[i] {
                0x1b => {
                    let Some(k) = b.get(i + 1) else { break };
                    match k {
                        b'[' => {
                            let Some(e) = b[i + 2..].iter().position(|c| (0x40..=0x7e).contains(c)) else { break };
                            let params = String::from_utf8_lossy(&b[i + 2..i + 2 + e]).to_string();
                            let f = b[i + 2 + e] as char;
                            self.csi(&params, f);
                            self.drawn += 1;
                            self.total += 1;
                            i += 3 + e;
                        }
                        b']' => {
                            let Some(e) = b[i + 2..].iter().position(|c| *c == 7) else { break };
                            let s = String::from_utf8_lossy(&b[i + 2..i + 2 + e]).to_string();
                            i += 3 + e;
                            if let Some(j) = s.strip_prefix("999;") {
                                msg = serde_json::from_str(j).ok();
                                break;
                            }
                        }
                        _ => {
                            self.unknown = Some(format!("ESC {:x}", k));
                            i += 2;
                        }
                    }
                }
                b'\r' => {
                    self.x = 0;
                    i += 1;
                }
                b'\n' => {
                    self.y = (self.y + 1).min(self.h.saturating_sub(1));
                    i += 1;
                }
                c if c < 0x20 => i += 1,
                c => {
                    let len = if c < 0x80 { 1 } else if c < 0xe0 { 2 } else if c < 0xf0 { 3 } else { 4 };
                    if i + len > b.len() {
                        break;
                    }
                    for c in String::from_utf8_lossy(&b[i..i + len]).chars() {
                        self.put(c);
                    }
                    self.drawn += 1;
                    self.total += 1;
                    i += len;
                }
            }
        }
        self.buf = b[i..].to_vec();
        msg
    }
    fn row(&self, y: usize, from: usize, to: usize) -> String {
        self.cells.get(y).map(|r| r.iter().skip(from).take(to - from).map(|s| s.as_str()).collect::<String>()).unwrap_or_default()
    }
    fn screen(&self) -> Vec<String> {
        (0..self.h).map(|y| self.row(y, 0, self.w).trim_end().to_string()).collect()
    }
    /// The number after `label` on the screen, which must appear exactly once.
    fn labelled(&self, label: &str) -> Vec<String> {
        let mut v = vec![];
        for l in self.screen() {
            // The system log is no part of this.
            let mut rest = l.as_str();
            while let Some(p) = rest.find(label) {
                let t: String = rest[p + label.len()..].trim_start().chars().take_while(|c| c.is_alphanumeric()).collect();
                v.push(t);
                rest = &rest[p + label.len()..];
            }
        }
        v
    }
    fn judge(&self, f: &Value) -> Result<(), String> {
        let lead = f["lead"].as_bool().unwrap();
        let one = |label: &str, want: Vec<String>| {
            let got = self.labelled(label);
            if got != want {
                return Err(format!("shows {:?} {:?}, reported {:?}", label, got, want));
            }
            Ok(())
        };
        let s = |v: &Value| if v.is_null() { "❓".to_string() } else { v.to_string() };
        one("OmniPaxos node ", vec![s(&f["id"])])?;
        one("Node Id:", vec![s(&f["id"])])?;
        one("Role:", vec![if lead { "Leader" } else { "Follower" }.into()])?;
        one("Ballot:", vec![s(&f["ballot"])])?;
        one("Decided idx:", vec![s(&f["decided"])])?;
        one("Accepted idx:", if lead { vec![s(&f["acc"])] } else { vec![] })?;
        one("Current Leader:", if f["leader"].is_null() { vec![] } else { vec![s(&f["leader"])] })?;
        one("No leader yet", if f["leader"].is_null() { vec!["".into()] } else { vec![] })?;
        let scr = self.screen();
        let nodes: Vec<String> = scr
            .iter()
            .find_map(|l| l.find("Nodes:").map(|p| l[p + 6..].split(|c: char| !c.is_ascii_digit() && c != ' ').next().unwrap_or("").split_whitespace().map(|x| x.to_string()).collect()))
            .unwrap_or_default();
        let want: Vec<String> = f["nodes"].as_array().unwrap().iter().map(s).collect();
        if nodes != want {
            return Err(format!("shows the nodes {:?}, they are {:?}", nodes, want));
        }
        // The table of peers: rows below its header, right of the log.
        let (hy, hx) = (0..self.h)
            .find_map(|y| {
                let row = &self.cells[y];
                (0..self.w.saturating_sub(3)).find(|x| row[*x] == "P" && row[*x + 1] == "I" && row[*x + 2] == "D").map(|x| (y, x))
            })
            .ok_or("no table of peers")?;
        let mut rows: Vec<Vec<String>> = vec![];
        for y in hy + 1..self.h {
            let l: String = self.row(y, hx, self.w).chars().map(|c| if c.is_ascii_alphanumeric() || "%✅❌❓".contains(c) { c } else { ' ' }).collect();
            let t: Vec<String> = l.split_whitespace().map(|x| x.to_string()).collect();
            if !t.is_empty() {
                rows.push(t);
            }
        }
        let want: Vec<Vec<String>> = f["peers"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| {
                let mut v = vec![s(&p["pid"]), if p["up"].as_bool().unwrap() { "✅" } else { "❌" }.to_string(), s(&p["ballot"]), s(&p["leader"])];
                if lead {
                    v.push(s(&p["acc"]));
                    v.push(format!("{}%", p["pct"]));
                }
                v
            })
            .collect();
        if rows != want {
            return Err(format!("shows the peers {:?}, reported {:?}", rows, want));
        }
        // The newest bars of the throughput chart: the label of each non-zero bar.
        let ty = scr.iter().position(|l| l.contains("Throughput:")).ok_or("no throughput")?;
        let by = (ty + 1..self.h).find(|y| self.cells[*y][0] == "└").ok_or("no end of the throughput chart")?;
        for (k, v) in f["hist"].as_array().unwrap().iter().enumerate() {
            let d = v.as_u64().unwrap();
            let got = self.row(by - 1, 1 + 4 * k, 1 + 4 * k + 3).trim().to_string();
            let want = if d == 0 { String::new() } else { d.to_string() };
            if want.len() <= 3 && got != want {
                return Err(format!("bar {} of the throughput is labelled {:?}, decided were {}", k, got, d));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- the parent

fn pty() -> Option<(OwnedFd, OwnedFd)> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return None;
        }
        let m = OwnedFd::from_raw_fd(m);
        if libc::grantpt(m.as_raw_fd()) != 0 || libc::unlockpt(m.as_raw_fd()) != 0 {
            return None;
        }
        let mut name = [0 as libc::c_char; 128];
        if libc::ptsname_r(m.as_raw_fd(), name.as_mut_ptr(), 128) != 0 {
            return None;
        }
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 {
            return None;
        }
        let ws = libc::winsize { ws_row: 50, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(s, libc::TIOCSWINSZ, &ws);
        Some((m, OwnedFd::from_raw_fd(s)))
    }
}
pub fn job(made_up: bool) -> RunFn {
    Box::new(move |seed, trace| {
        let mut f = Facts::new();
        let mut log = vec![];
        let mut hash = seed & 0xffff;
        let mut viol: Option<String> = None;
        let (m, s) = pty().expect("no pseudo terminal");
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(["ui-child", &seed.to_string(), if made_up { "1" } else { "0" }, if trace { "1" } else { "0" }]);
        c.env("TERM", "xterm-256color");
        c.stdin(Stdio::from(s.try_clone().unwrap())).stdout(Stdio::from(s.try_clone().unwrap())).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                Ok(())
            });
        }
        let mut ch = c.spawn().expect("child");
        drop(c);
        drop(s);
        let mut t = Term { w: 200, h: 50, ..Default::default() };
        t.clear();
        let mut ended = false;
        let mut started = false;
        let t0 = Instant::now();
        let mut buf = [0u8; 65536];
        'run: loop {
            while let Some(v) = t.next() {
                if trace {
                    log.push(v.to_string());
                }
                match v["k"].as_str().unwrap_or("") {
                    "size" => {
                        t.resize(v["w"].as_u64().unwrap() as usize, v["h"].as_u64().unwrap() as usize);
                        *f.entry("terminal sizes").or_default() += 1;
                    }
                    "key" => {
                        let k = v["c"].as_str().unwrap().to_string();
                        unsafe { libc::write(m.as_raw_fd(), k.as_ptr() as *const _, k.len()) };
                        *f.entry("keys").or_default() += 1;
                    }
                    "x" => viol = Some(v["m"].as_str().unwrap_or("").to_string()),
                    "started" => {
                        started = true;
                        *f.entry("starts").or_default() += 1;
                        if !t.alt {
                            viol = Some("a started dashboard is not on the alternate screen".into());
                        }
                    }
                    "stopped" => {
                        started = false;
                        *f.entry("stops").or_default() += 1;
                        if t.alt || t.hidden || !t.mouse.is_empty() || !v["same"].as_bool().unwrap() {
                            viol = Some(format!(
                                "after stop: alternate screen {}, cursor hidden {}, modes on {:?}, terminal settings as before {}",
                                t.alt, t.hidden, t.mouse, v["same"]
                            ));
                        }
                    }
                    "quiet" => t.drawn = 0,
                    "silent" => {
                        *f.entry("reports to a stopped dashboard").or_default() += 1;
                        if t.drawn > 0 {
                            viol = Some("a stopped dashboard draws".into());
                        }
                    }
                    "frame" => {
                        hash = mix(hash ^ mix(v.to_string().bytes().fold(7, |a: u64, b| a.wrapping_mul(31).wrapping_add(b as u64))));
                        if v["full"].as_bool().unwrap() {
                            *f.entry("screens compared").or_default() += 1;
                            if v["lead"].as_bool().unwrap() {
                                *f.entry("screens of leaders").or_default() += 1;
                            }
                            if let Err(e) = t.judge(&v) {
                                viol = Some(format!("server {}: {}", v["id"], e));
                                log.push(v.to_string());
                                log.extend(t.screen());
                            }
                        } else {
                            *f.entry("screens in small terminals").or_default() += 1;
                        }
                    }
                    "end" => ended = true,
                    _ => (),
                }
                if !t.replies.is_empty() {
                    let r = std::mem::take(&mut t.replies);
                    unsafe { libc::write(m.as_raw_fd(), r.as_ptr() as *const _, r.len()) };
                }
                if viol.is_some() || ended {
                    break 'run;
                }
            }
            if !t.replies.is_empty() {
                let r = std::mem::take(&mut t.replies);
                unsafe { libc::write(m.as_raw_fd(), r.as_ptr() as *const _, r.len()) };
            }
            if t0.elapsed() > Duration::from_secs(120) {
                viol = Some("no progress within 120 s".into());
                break;
            }
            let n = unsafe {
                let mut p = libc::pollfd { fd: m.as_raw_fd(), events: libc::POLLIN, revents: 0 };
                if libc::poll(&mut p, 1, 1000) == 0 {
                    continue;
                }
                libc::read(m.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len())
            };
            if n <= 0 {
                break;
            }
            t.buf.extend_from_slice(&buf[..n as usize]);
        }
        if viol.is_some() || !ended {
            let _ = ch.kill();
        }
        let st = ch.wait();
        if viol.is_none() && !ended {
            viol = Some(format!("the process with the dashboard died: {:?} (started: {})", st, started));
        }
        if let Some(u) = &t.unknown {
            log.push(format!("unknown terminal sequence {}", u));
            f.insert("unknown terminal sequences", 1);
        }
        f.insert("characters drawn", t.total);
        RunOut {
            viol: viol.into_iter().map(|msg| Violation { prop: "C27", step: 0, msg }).collect(),
            hash,
            facts: f,
            log,
            desc: format!("dashboard, {} reports", if made_up { "made-up" } else { "real" }),
            ..Default::default()
        }
    })
}
