//! C02-C05: clusters of real instances in virtual time.
use crate::base::*;
use crate::explore::*;
use crate::net::*;
use foca::{Config, Member, Message, OwnedNotification as N, State};
use std::num::NonZeroU8;
use std::sync::atomic::{AtomicU64, Ordering};

const PERIOD: u64 = 1000;
/// a little before the 256th probe round
const WRAP: u64 = 253_500;
/// longest time observed to reach what the deadline demands (evidence)
static WORST: AtomicU64 = AtomicU64::new(0);
static REACHED: AtomicU64 = AtomicU64::new(0);

fn nid(i: usize, kind: u8) -> Id {
    idk(i as u8, 1, kind)
}
fn tx(c: &mut Config, n: u8) {
    c.max_transmissions = NonZeroU8::new(n).unwrap();
}
/// One-way latencies that differ per pair of nodes, so that simultaneous events are rare.
fn spread(a: u8, b: u8) -> u64 {
    (a as u64 * 7 + b as u64 * 3) % 11
}
fn plan(n: usize, kind: u8, c: &Config, cmds: Vec<(u64, u8, Cmd)>, joined: &[u8]) -> Plan {
    Plan {
        inits: (0..n)
            .map(|i| {
                let mut x = Init::new(nid(i, kind), c.clone());
                x.tag = i as u8;
                x
            })
            .collect(),
        cmds,
        joined: joined.to_vec(),
    }
}
/// Everybody knows everybody; instance i starts probing at phase[i].
fn formed(n: usize, kind: u8, c: &Config, phase: &[u64]) -> Plan {
    let all: Vec<Member<Id>> = (0..n).map(|i| Member::alive(nid(i, kind))).collect();
    let cmds = (0..n)
        .map(|i| {
            let mut v: Vec<Member<Id>> = all
                .iter()
                .filter(|m| m.id().addr as usize != i)
                .cloned()
                .collect();
            v.rotate_left(i % (n - 1));
            (phase[i], i as u8, Cmd::Apply(v))
        })
        .collect();
    let j: Vec<u8> = (0..n as u8).collect();
    plan(n, kind, c, cmds, &j)
}
fn lists_all<M>(net: &NS<M>, strict_alive: bool) -> bool {
    let live: Vec<Id> = net
        .nodes
        .iter()
        .filter(|n| n.up && n.joined && !n.left)
        .map(|n| n.obs.me)
        .collect();
    net.nodes
        .iter()
        .filter(|n| n.up && n.joined && !n.left)
        .all(|n| {
            let a: Vec<&Member<Id>> = n.obs.act.iter().collect();
            a.len() == live.len() - 1
                && live.iter().filter(|i| **i != n.obs.me).all(|i| {
                    a.iter()
                        .any(|m| m.id() == i && (!strict_alive || m.state() == State::Alive))
                })
        })
}
fn show<M>(net: &NS<M>) -> String {
    net.nodes
        .iter()
        .map(|n| {
            format!(
                "{:?}{}: {:?}",
                n.obs.me,
                if n.up { "" } else { " (crashed)" },
                n.obs.all.iter().map(fmt_m).collect::<Vec<_>>()
            )
        })
        .collect::<Vec<_>>()
        .join("; ")
}
fn reached(after: u64) {
    WORST.fetch_max(after, Ordering::Relaxed);
    REACHED.fetch_add(1, Ordering::Relaxed);
}

// ------------------------------------------------------------------ C02

#[derive(Clone)]
pub struct DiscMon {
    n: usize,
    last_join: u64,
    /// 0: the configuration cannot feed the whole cluster, discovery is not demanded
    bound: u64,
    tx: u8,
    /// periodically announces: members are discovered without gossip
    announces: bool,
    found: bool,
    /// how often each instance passed on that another is Alive, until everybody is discovered
    told: Vec<u8>,
}
impl NMon for DiscMon {
    fn tick(&mut self, net: &NS<Self>, t: u64) -> Result<(), Viol> {
        if !self.found && self.bound > 0 && t > self.last_join + self.bound {
            // Every instance that knows of an undiscovered member has passed the news on
            // max_transmissions times: the gossip ran out before it reached everybody.
            let mut missing = 0;
            let mut exhausted = true;
            for (b, nb) in net.nodes.iter().enumerate() {
                if net
                    .nodes
                    .iter()
                    .enumerate()
                    .all(|(a, na)| a == b || na.obs.is_active(&nb.obs.me))
                {
                    continue;
                }
                missing += 1;
                for (x, nx) in net.nodes.iter().enumerate() {
                    if x != b && nx.obs.is_active(&nb.obs.me) {
                        exhausted &= self.told[x * self.n + b] == self.tx;
                    }
                }
            }
            let what = format!(
                "{} ms after the last announce: {}",
                t - self.last_join,
                show(net)
            );
            if missing > 0 && exhausted && !self.announces {
                return viol(format!("undiscovered-gossip-exhausted-n{}-tx{}", self.n, self.tx), what);
            }
            return viol("undiscovered", what);
        }
        Ok(())
    }
    fn step(&mut self, s: &Step<'_, Self>) -> Result<(), Viol> {
        if !s.out.ok() {
            return viol("error", format!("node {} returned {:?}", s.node, s.out.res));
        }
        for n in s.out.notes() {
            if matches!(n, N::MemberDown(_) | N::Idle | N::Defunct | N::Rejoin(_)) {
                return viol("notified", format!("node {} notified {n:?}", s.node));
            }
        }
        for m in &s.net.nodes[s.node].obs.all {
            if m.state() != State::Alive {
                return viol(
                    "false-suspicion",
                    format!("node {} holds {} about a live member", s.node, fmt_m(m)),
                );
            }
            if m.id().addr as usize >= self.n
                || s.net.nodes[m.id().addr as usize].obs.me != *m.id()
            {
                return viol(
                    "not-a-member",
                    format!("node {} lists {} which is nobody", s.node, fmt_m(m)),
                );
            }
        }
        if self.bound == 0 {
            return Ok(());
        }
        if !self.found {
            for (_, d) in s.out.sends() {
                let Ok(p) = parse(&s.codec, d) else { continue };
                if p.h.message == Message::Feed {
                    continue;
                }
                for u in p.ups.iter().flatten() {
                    if u.state() == State::Alive && (u.id().addr as usize) < self.n {
                        let c = &mut self.told[s.node * self.n + u.id().addr as usize];
                        *c = c.saturating_add(1);
                    }
                }
            }
            if s.t >= self.last_join
                && s.net.nodes.iter().all(|n| n.joined)
                && lists_all(s.net, true)
            {
                self.found = true;
                reached(s.t - self.last_join);
            }
        } else if !lists_all(s.net, true) {
            return viol(
                "lost-member",
                format!("after full discovery: {}", show(s.net)),
            );
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128, now: u64) {
        h.u64(self.found as u64);
        if !self.found && self.bound > 0 {
            h.u64(now);
            h.bytes(&self.told);
        }
    }
}

/// Who announces to whom, and when.
struct Joins {
    name: String,
    cmds: Vec<(u64, u8, Cmd)>,
    joined: Vec<u8>,
    last: u64,
}
fn trees(n: usize) -> Vec<Vec<u8>> {
    let mut trees: Vec<Vec<u8>> = vec![vec![]];
    for i in 1..n {
        let mut next = Vec::new();
        for t in &trees {
            for s in 0..i as u8 {
                let mut t = t.clone();
                t.push(s);
                next.push(t);
            }
        }
        trees = next;
    }
    trees
}
/// every seed tree x the same gap between announces
fn joins(n: usize, gaps: &[u64]) -> Vec<Joins> {
    let mut v = Vec::new();
    for t in trees(n) {
        for &g in gaps {
            let cmds: Vec<(u64, u8, Cmd)> = t
                .iter()
                .enumerate()
                .map(|(k, s)| (100 + g * k as u64, k as u8 + 1, Cmd::Announce(*s)))
                .collect();
            v.push(Joins {
                name: format!("{t:?}+{g}"),
                last: cmds.last().map_or(0, |c| c.0),
                cmds,
                joined: vec![0],
            });
        }
    }
    v
}
/// the smallest packet in which a Feed of k members fits
fn feed_packet(codec: &McCodec, k: usize) -> usize {
    let i = nid(0, K_RENEW);
    build(
        codec,
        i,
        0,
        nid(1, K_RENEW),
        Message::Feed,
        &vec![Member::alive(i); k],
        &[],
    )
    .len()
}
/// the smallest packet in which every header fits
fn header_packet(codec: &McCodec) -> usize {
    let i = nid(0, K_RENEW);
    codec
        .enc_header(&foca::Header {
            src: i,
            src_incarnation: 0,
            dst: i,
            message: Message::PingReq {
                target: i,
                probe_number: 0,
            },
        })
        .len()
}
fn disc(
    cname: &str,
    c: &Config,
    n: usize,
    kind: u8,
    codec: McCodec,
    j: &Joins,
    demand: bool,
) -> Net<DiscMon> {
    let period = c.probe_period.as_millis() as u64;
    let mut p = plan(n, kind, c, j.cmds.clone(), &j.joined);
    for i in &mut p.inits {
        i.codec = codec;
    }
    let mut s = Net::base(
        &format!("join-n{n}-{cname}-{}", j.name),
        p,
        DiscMon {
            n,
            last_join: j.last,
            bound: if demand { (3 * n as u64 + 6) * period } else { 0 },
            tx: c.max_transmissions.get(),
            announces: c.periodic_announce.is_some(),
            found: false,
            told: vec![0; n * n],
        },
    );
    s.skew = spread;
    s.lats = vec![3];
    s.m = 6;
    s
}

pub fn c02(r: &mut Report) {
    r.rule = "clusters of real instances in virtual time; every RNG answer and latency of the menus (n<=3) or every run within a number of deviations from the default answers (n>=4); states merged modulo time and probe number, explored until no new state exists".into();
    let t = r.thorough();
    let mut scopes: Vec<Net<DiscMon>> = Vec::new();
    // n = 2: every latency choice of every datagram, every order of simultaneous events
    for (cname, c, demand) in configs(2) {
        for kind in [K_RENEW, K_NONE] {
            for j in joins(2, &[0]) {
                let mut s = disc(&format!("{cname}-k{kind}"), &c, 2, kind, FIXED, &j, demand);
                s.lats = vec![3, 47, 88];
                s.ties = true;
                slim(&mut s, cname, t);
                scopes.push(s);
            }
        }
    }
    // both announce to each other at the same instant
    for (cname, c, demand) in configs(2) {
        let j = Joins {
            name: "mutual".into(),
            cmds: vec![(100, 0, Cmd::Announce(1)), (100, 1, Cmd::Announce(0))],
            joined: vec![],
            last: 100,
        };
        let mut s = disc(cname, &c, 2, K_RENEW, FIXED, &j, demand);
        s.lats = vec![3, 88];
        s.skew = no_skew;
        s.ties = true;
        slim(&mut s, cname, t);
        scopes.push(s);
    }
    // n = 3: every RNG outcome
    for (cname, c, demand) in configs(3) {
        for j in joins(3, &[0, 40, 1300]) {
            let mut s = disc(cname, &c, 3, K_RENEW, FIXED, &j, demand);
            slim(&mut s, cname, t);
            scopes.push(s);
        }
    }
    // n = 3 with latency choices, bounded deviations
    for (cname, c, demand) in configs(3).into_iter().take(if t { 20 } else { 3 }) {
        for j in joins(3, &[40]) {
            let mut s = disc(&format!("{cname}-lat"), &c, 3, K_RENEW, FIXED, &j, demand);
            s.lats = vec![3, 88];
            s.dev = if t { 4 } else { 2 };
            s.max_states = if t { 3_000_000 } else { 200_000 };
            scopes.push(s);
        }
    }
    for (cname, c, demand) in configs(4) {
        for j in joins(4, if t { &[0, 40, 1300, 4000] } else { &[40, 1300] }) {
            let mut s = disc(cname, &c, 4, K_RENEW, FIXED, &j, demand);
            s.dev = if t { 3 } else { 1 };
            s.max_states = if t { 2_000_000 } else { 300_000 };
            scopes.push(s);
        }
    }
    for (cname, c, demand) in configs(5) {
        if c.periodic_gossip.is_some() && !t {
            continue;
        }
        for j in joins(5, if t { &[40, 1300] } else { &[40] }) {
            let mut s = disc(cname, &c, 5, K_RENEW, FIXED, &j, demand);
            s.dev = 1;
            s.max_states = if t { 2_000_000 } else { 300_000 };
            scopes.push(s);
        }
    }
    // probe numbers wrap around after 256 rounds: long undisturbed runs, and everything that can
    // happen around the wrap
    for n in 2..=4usize {
        for (cname, c, demand) in configs(n) {
            if !matches!(cname, "plain" | "periodic" | "tight-rtt") {
                continue;
            }
            let j = joins(n, &[40]).pop().unwrap();
            let mut s = disc(&format!("{cname}-600rounds"), &c, n, K_RENEW, FIXED, &j, demand);
            s.m = 1;
            s.horizon = 600 * PERIOD;
            scopes.push(s);
            let mut s = disc(&format!("{cname}-wrap"), &c, n, K_RENEW, FIXED, &j, demand);
            s.warm = WRAP;
            s.horizon = WRAP + 5 * PERIOD;
            s.lats = vec![3, 88];
            s.dev = match (n, t) {
                (2, false) => 3,
                (2, true) => 6,
                (3, true) => 3,
                (_, true) => 2,
                _ => 1,
            };
            s.max_states = if t { 2_000_000 } else { 60_000 };
            scopes.push(s);
        }
    }
    other_streams(&mut scopes, t, 1, |k, _| k == 0);
    Net::explore_many(scopes, r);
    r.count("longest_discovery_ms", WORST.load(Ordering::Relaxed));
    r.count(
        "runs_reaching_full_discovery",
        REACHED.load(Ordering::Relaxed),
    );
}
/// The long common period of some configurations is explored with fewer deviations.
fn slim(s: &mut Net<DiscMon>, cname: &str, thorough: bool) {
    s.max_states = if thorough { 3_000_000 } else { 100_000 };
    if cname == "lan" {
        s.dev = if thorough { 3 } else { 1 };
        s.horizon = if thorough { 140_000 } else { 35_000 };
    } else if s.lats.len() > 1 && cname.contains("periodic") {
        s.dev = if thorough { 6 } else { 3 };
    }
}
fn configs(n: usize) -> Vec<(&'static str, Config, bool)> {
    let mut v = Vec::new();
    let mut c = cfg();
    tx(&mut c, 10);
    c.num_indirect_probes = nz(3);
    v.push(("plain", c.clone(), true));
    let mut d = c.clone();
    d.num_indirect_probes = nz(1);
    tx(&mut d, 5);
    v.push(("tx5", d, true));
    let mut d = c.clone();
    d.periodic_gossip = pp(500, 3);
    d.periodic_announce = pp(2000, 1);
    v.push(("periodic", d, true));
    let mut d = c.clone();
    tx(&mut d, 1);
    d.periodic_announce = pp(1000, 1);
    v.push(("tx1-announce", d, true));
    let mut d = c.clone();
    tx(&mut d, 2);
    v.push(("tx2", d, true));
    let mut d = c.clone();
    tx(&mut d, 1);
    v.push(("tx1", d, true));
    for (name, k) in [("tx3", 3), ("tx4", 4)] {
        if n == 4 {
            let mut d = c.clone();
            tx(&mut d, k);
            v.push((name, d, true));
        }
    }
    let mut d = c.clone();
    d.max_packet_size = nz(feed_packet(&FIXED, n - 1));
    v.push(("packet-fits", d, true));
    let mut d = c.clone();
    d.max_packet_size = nz(header_packet(&FIXED) + 2 + FIXED.enc_member(&Member::alive(nid(0, K_RENEW))).len());
    v.push(("packet-small", d, n <= 2));
    let mut d = c.clone();
    d.max_packet_size = nz(header_packet(&FIXED));
    d.periodic_gossip = pp(1000, 1);
    v.push(("packet-tiny", d, n <= 2));
    let mut d = c.clone();
    d.probe_rtt = ms(999);
    d.num_indirect_probes = nz(1);
    d.notify_down_members = true;
    v.push(("tight-rtt", d, true));
    if n <= 3 {
        let mut d = Config::new_lan(std::num::NonZeroU32::new(n as u32).unwrap());
        d.periodic_announce = pp(30_000, 1);
        v.push(("lan", d, true));
    }
    v
}

// ------------------------------------------------------------------ C03

#[derive(Clone)]
pub struct CompMon {
    n: u64,
    period: u64,
    s2d: u64,
    struck: bool,
    /// (survivor, the identity it listed as active when it failed, when that was)
    pending: Vec<(u8, Id, u64)>,
    /// identities that failed or left
    gone: Vec<Id>,
    quiet_since: Option<u64>,
    /// failures of the plan
    faults: u8,
}
impl CompMon {
    fn new(n: usize, c: &Config) -> Self {
        CompMon {
            faults: 1,
            n: n as u64,
            period: c.probe_period.as_millis() as u64,
            s2d: c.suspect_to_down_after.as_millis() as u64,
            struck: false,
            pending: vec![],
            gone: vec![],
            quiet_since: None,
        }
    }
}
impl NMon for CompMon {
    fn tick(&mut self, net: &NS<Self>, t: u64) -> Result<(), Viol> {
        for (x, who, t0) in &self.pending {
            if t > t0 + (2 * self.n + 1) * self.period + self.s2d {
                return viol(
                    "not-reported-down",
                    format!(
                        "{} ms after the failure of {who:?} node {x} has not notified MemberDown: {}",
                        t - t0,
                        show(net)
                    ),
                );
            }
        }
        Ok(())
    }
    fn fault_ok(&self, f: &Fault, net: &NS<Self>) -> bool {
        let Fault::Mixed(a, b) = f else { return true };
        a.iter()
            .chain(b)
            .all(|x| net.nodes[*x as usize].up && !net.nodes[*x as usize].left)
    }
    fn fault(&mut self, f: &Fault, net: &NS<Self>) {
        let Fault::Mixed(a, b) = f else { return };
        self.struck = true;
        let all: Vec<u8> = a.iter().chain(b).copied().collect();
        for x in &all {
            let who = net.nodes[*x as usize].obs.me;
            self.gone.push(who);
            for (i, nd) in net.nodes.iter().enumerate() {
                if !all.contains(&(i as u8)) && nd.up && !nd.left && nd.obs.is_active(&who) {
                    self.pending.push((i as u8, who, net.now));
                }
            }
        }
        // those that failed owe nothing any more
        self.pending.retain(|p| !all.contains(&p.0));
        self.quiet_since = self.pending.is_empty().then_some(net.now);
    }
    fn step(&mut self, s: &Step<'_, Self>) -> Result<(), Viol> {
        let nd = &s.net.nodes[s.node];
        if nd.left {
            // no replies any more, at least not as the identity that left
            for (_, d) in s.out.sends() {
                let Ok(p) = parse(&s.codec, d) else { continue };
                // (the gossip about leaving is part of the call)
                if !matches!(s.call, Call::Leave)
                    && matches!(
                        p.h.message,
                        Message::Ack(_)
                            | Message::IndirectPing { .. }
                            | Message::IndirectAck { .. }
                            | Message::ForwardedAck { .. }
                            | Message::Feed
                    )
                {
                    return viol(
                        "answers-after-leaving",
                        format!("node {} left but sent {:?}", s.node, p.h),
                    );
                }
            }
            return Ok(());
        }
        for n in s.out.notes() {
            if let N::MemberDown(x) = n {
                if !self.gone.contains(x) {
                    return viol(
                        "survivor-declared-down",
                        format!("node {} notified MemberDown({x:?})", s.node),
                    );
                }
                self.pending.retain(|p| {
                    let hit = (p.0, p.1) == (s.node as u8, *x);
                    if hit {
                        reached(s.t - p.2);
                    }
                    !hit
                });
                if self.struck && self.pending.is_empty() && self.quiet_since.is_none() {
                    self.quiet_since = Some(s.t);
                }
            }
        }
        for m in &nd.obs.all {
            if m.state() == State::Down && !self.gone.contains(m.id()) {
                return viol(
                    "survivor-declared-down",
                    format!("node {} holds {}", s.node, fmt_m(m)),
                );
            }
        }
        // told by the leaver itself: reported at once
        if let Call::Data(d) = s.call {
            if let Ok(p) = parse(&s.codec, d) {
                for u in p.ups.iter().flatten() {
                    if u.state() == State::Down
                        && p.h.src == *u.id()
                        && p.h.dst == s.o0.me
                        && s.o0.is_active(u.id())
                        && !s
                            .out
                            .notes()
                            .any(|n| matches!(n, N::MemberDown(x) if x == u.id()))
                    {
                        return viol(
                            "leaver-not-reported-at-once",
                            format!("node {} was told by {:?} itself", s.node, u.id()),
                        );
                    }
                }
            }
        }
        Ok(())
    }
    fn done(&self, net: &NS<Self>) -> bool {
        // (a second failure may strike later)
        net.fault_i >= self.faults
            && self
                .quiet_since
                .is_some_and(|q| net.now > q + self.s2d + 3 * self.period)
    }
    fn fp(&self, h: &mut H128, now: u64) {
        h.u64(self.pending.len() as u64);
        for (a, b, t0) in &self.pending {
            h.u64(now - t0);
            h.dbg(&(a, b));
        }
        h.u64(
            self.quiet_since
                .map_or(0, |q| 1 + (now - q).min(self.s2d + 3 * self.period + 1)),
        );
    }
}
/// every non-empty choice of who crashes and who leaves, somebody surviving
fn failures(n: usize, crashes_only: bool) -> Vec<Fault> {
    let mut v = Vec::new();
    for code in 1..3usize.pow(n as u32) {
        let (mut a, mut b) = (vec![], vec![]);
        let mut c = code;
        for i in 0..n as u8 {
            match c % 3 {
                1 => a.push(i),
                2 => b.push(i),
                _ => {}
            }
            c /= 3;
        }
        if a.len() + b.len() < n && !(crashes_only && !b.is_empty()) {
            v.push(Fault::Mixed(a, b));
        }
    }
    v
}
pub fn c03(r: &mut Report) {
    r.rule = "formed and forming clusters of real instances in virtual time; every choice of failing members (each crashing or leaving) at every event; every RNG answer (n<=3) or every run within a number of deviations; explored until no new state exists".into();
    let t = r.thorough();
    let mut scopes: Vec<Net<CompMon>> = Vec::new();
    let mut base = cfg();
    tx(&mut base, 4);
    base.num_indirect_probes = nz(2);
    let mut cfgs = vec![("plain", base.clone())];
    let mut c = base.clone();
    c.suspect_to_down_after = ms(1500);
    c.num_indirect_probes = nz(1);
    c.notify_down_members = true;
    tx(&mut c, 1);
    cfgs.push(("short", c));
    let mut c = base.clone();
    c.periodic_gossip = pp(500, 1);
    c.notify_down_members = true;
    cfgs.push(("gossip", c));
    let mk = |name: String, p: Plan, n: usize, c: &Config| {
        let mut s = Net::base(&name, p, CompMon::new(n, c));
        s.skew = spread;
        s.lats = vec![3];
        s.m = 6;
        s.faults = vec![(failures(n, false), (0, u64::MAX))];
        s.max_states = if t { 8_000_000 } else { 1_500_000 };
        s
    };
    let phase = |n: usize| (0..n as u64).map(|i| 100 + i * 230).collect::<Vec<u64>>();
    // n = 2, 3: every RNG outcome
    for n in 2..=3usize {
        for (cname, c) in &cfgs {
            for kind in [K_NONE, K_RENEW] {
                if n == 3 && (*cname == "short") != (kind == K_RENEW) && !t {
                    continue;
                }
                let mut s = mk(
                    format!("fail-n{n}-{cname}-k{kind}"),
                    formed(n, kind, c, &phase(n)),
                    n,
                    c,
                );
                if n == 2 {
                    s.lats = vec![3, 88];
                    s.ties = true;
                }
                scopes.push(s);
            }
        }
    }
    // n = 4: every choice of failures at every event of one run; one deviation for single failures
    for (cname, c) in &cfgs {
        if *cname == "gossip" && !t {
            continue;
        }
        let mut s = mk(format!("fail-n4-{cname}"), formed(4, K_RENEW, c, &phase(4)), 4, c);
        s.dev = 0;
        scopes.push(s);
        for f in failures(4, false) {
            let Fault::Mixed(a, b) = &f else { continue };
            if a.len() + b.len() > if t { 3 } else { 1 } {
                continue;
            }
            let mut s = mk(format!("fail-n4-{cname}-dev-{a:?}-{b:?}"), formed(4, K_RENEW, c, &phase(4)), 4, c);
            s.dev = 1;
            s.faults = vec![(vec![f], (0, u64::MAX))];
            scopes.push(s);
        }
    }
    // two failures at different times
    let single = |n: u8| (0..n).flat_map(|i| [Fault::Mixed(vec![i], vec![]), Fault::Mixed(vec![], vec![i])]).collect::<Vec<_>>();
    for n in 3..=4usize {
        let (cname, c) = &cfgs[1];
        let mut s = mk(format!("fail-twice-n{n}-{cname}"), formed(n, K_NONE, c, &phase(n)), n, c);
        s.dev = 0;
        s.mon.faults = 2;
        s.faults = if t {
            vec![(single(n as u8), (0, u64::MAX)), (single(n as u8), (0, u64::MAX))]
        } else if n == 3 {
            vec![(single(3), (1000, 4000)), (single(3), (1000, 8000))]
        } else {
            let mut f = single(4);
            f.retain(|f| matches!(f, Fault::Mixed(_, b) if b.is_empty()));
            vec![(f.clone(), (1000, 4000)), (f, (1000, 7000))]
        };
        scopes.push(s);
    }
    // failures while the cluster is still forming
    for n in 3..=4usize {
        for (cname, c) in &cfgs {
            for j in joins(n, &[40, 1300]) {
                if n == 4 && *cname == "gossip" && !t {
                    continue;
                }
                let mut s = mk(format!("fail-joining-n{n}-{cname}-{}", j.name), plan(n, K_RENEW, c, j.cmds.clone(), &j.joined), n, c);
                s.dev = if n == 3 { 1 } else { 0 };
                s.faults = vec![(failures(n, true), (0, 9000))];
                scopes.push(s);
            }
        }
    }
    // failures around the wrap of the probe numbers
    for n in 2..=3usize {
        for (cname, c) in &cfgs {
            let mut s = mk(
                format!("fail-wrap-n{n}-{cname}"),
                formed(n, K_RENEW, c, &phase(n)),
                n,
                c,
            );
            s.warm = WRAP;
            s.faults = vec![(failures(n, true), (WRAP, WRAP + 4 * PERIOD))];
            s.dev = if t { 2 } else { 0 };
            scopes.push(s);
        }
    }
    // what leaving tells, after every history of one instance
    for s in super::node::scopes(r, false) {
        if s.name.starts_with("self-") || s.name == "former-selves" || s.name.starts_with("settings-") {
            super::node::with(s, crate::mons::LeaveMon::default()).explore(r);
        }
    }
    for k in [K_RENEW, K_NONE] {
        use crate::sn::*;
        let mut c = cfg();
        tx(&mut c, 2);
        c.notify_down_members = true;
        let mut s = Sn::base(&format!("left-k{k}"), Init::new(idk(0, 2, k), c), crate::mons::LeaveMon::default());
        for p in [id(1, 0), id(2, 0)] {
            s.acts.push(msg(p, MsgS::Ping(Num::Abs(7))).a());
            s.acts.push(msg(p, MsgS::PingReq(IdS::Fix(id(3, 0)), Num::Abs(7))).a());
            s.acts.push(msg(p, MsgS::IndirectPing(IdS::Fix(id(3, 0)), Num::Abs(7))).a());
            s.acts.push(msg(p, MsgS::IndirectAck(IdS::Fix(id(3, 0)), Num::Abs(7))).a());
            s.acts.push(msg(p, MsgS::Announce).a());
        }
        s.acts.push(msg(id(1, 0), MsgS::TurnUndead).a());
        for up in [Up(IdS::Own, Inc::Own(0), State::Suspect), Up(IdS::Own, Inc::Own(0), State::Down), Up(IdS::Fix(id(2, 0)), Inc::Abs(0), State::Down), Up(IdS::Fix(id(3, 0)), Inc::Abs(0), State::Alive)] {
            s.acts.push(msg(id(1, 0), MsgS::Gossip).ups(&[up]).a());
        }
        s.acts.extend([Act::Leave, Act::Reuse, Act::Gossip, Act::ChangeId(IdS::OwnNext)]);
        s.tm = TMode::Any;
        s.m = 2;
        s.depth = if t { 6 } else { 4 };
        s.max_states = if t { 3_000_000 } else { 300_000 };
        s.explore(r);
    }
    other_streams(&mut scopes, t, 0, |_, _| true);
    Net::explore_many(scopes, r);
    r.count("longest_detection_ms", WORST.load(Ordering::Relaxed));
    r.count("runs_reporting_everybody", REACHED.load(Ordering::Relaxed));
}

// ------------------------------------------------------------------ C04

#[derive(Clone)]
pub struct LossMon {
    bound: u64,
    lost_at: Option<u64>,
    suspected: bool,
}
impl NMon for LossMon {
    fn tick(&mut self, net: &NS<Self>, t: u64) -> Result<(), Viol> {
        if self.lost_at.is_some_and(|l| t > l + self.bound) && !lists_all(net, true) {
            return viol(
                "not-alive-again",
                format!(
                    "{} ms after the loss: {}",
                    t - self.lost_at.unwrap_or(0),
                    show(net)
                ),
            );
        }
        Ok(())
    }
    fn dropped(&mut self, net: &NS<Self>) {
        self.lost_at = Some(net.now);
    }
    fn step(&mut self, s: &Step<'_, Self>) -> Result<(), Viol> {
        for n in s.out.notes() {
            if matches!(
                n,
                N::MemberDown(_) | N::Idle | N::Defunct | N::Rejoin(_) | N::Rename(..)
            ) {
                return viol("declared-down", format!("node {} notified {n:?}", s.node));
            }
        }
        for (_, d) in s.out.sends() {
            if parse(&s.codec, d).is_ok_and(|p| p.h.message == Message::TurnUndead) {
                return viol("told-down", format!("node {} sent TurnUndead", s.node));
            }
        }
        for m in &s.net.nodes[s.node].obs.all {
            if m.state() == State::Down {
                return viol(
                    "declared-down",
                    format!("node {} holds {}", s.node, fmt_m(m)),
                );
            }
        }
        if let Some(l) = self.lost_at {
            let all = lists_all(s.net, true);
            if !all {
                self.suspected = true;
            } else if self.suspected {
                self.suspected = false;
                reached(s.t - l);
            }
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128, now: u64) {
        h.u64(self.suspected as u64);
        h.u64(
            self.lost_at
                .map_or(0, |l| 1 + (now - l).min(self.bound + 1)),
        );
    }
}
pub fn c04(r: &mut Report) {
    r.rule = "formed clusters of real instances in virtual time; each single datagram of the (closed) steady state lost; every RNG answer (n<=3) or every run within a number of deviations; explored until no new state exists".into();
    let t = r.thorough();
    let mut scopes: Vec<Net<LossMon>> = Vec::new();
    let mut base = cfg();
    tx(&mut base, 10);
    base.num_indirect_probes = nz(2);
    for n in 2..=5usize {
        let mut cfgs = vec![("plain", base.clone())];
        let mut c = base.clone();
        c.notify_down_members = true;
        c.num_indirect_probes = nz(1);
        tx(&mut c, 4);
        cfgs.push(("notify", c));
        let mut c = base.clone();
        c.periodic_gossip = pp(500, 1);
        c.periodic_announce = pp(2000, 1);
        c.notify_down_members = true;
        cfgs.push(("periodic", c));
        // the indirect probe comes too late to save a round: every loss leads to suspicion
        let mut c = base.clone();
        c.probe_rtt = ms(990);
        c.suspect_to_down_after = ms((2 * n as u64 + 2) * PERIOD);
        c.notify_down_members = true;
        cfgs.push(("late-indirect", c));
        let mut c = base.clone();
        c.suspect_to_down_after = ms(1100);
        c.num_indirect_probes = nz(1);
        c.notify_down_members = true;
        tx(&mut c, 1);
        cfgs.push(("short", c));
        if n <= 3 {
            let c = Config::new_lan(std::num::NonZeroU32::new(n as u32).unwrap());
            cfgs.push(("lan", c));
        }
        for (cname, c) in cfgs {
            for kind in [K_NONE, K_RENEW] {
                if n >= 4 && kind == K_RENEW && !t {
                    continue;
                }
                let phase: Vec<u64> = (0..n as u64).map(|i| 100 + i * 230).collect();
                let mut s = Net::base(
                    &format!("loss-n{n}-{cname}-k{kind}"),
                    formed(n, kind, &c, &phase),
                    LossMon {
                        bound: (4 * n as u64 + 4) * PERIOD,
                        lost_at: None,
                        suspected: false,
                    },
                );
                s.skew = spread;
                s.lats = if n == 2 { vec![3, 88] } else { vec![3] };
                s.m = 6;
                s.ties = n == 2;
                s.drops = 1;
                s.dev = match (n, t) {
                    (2 | 3, _) => 255,
                    (4, false) => 1,
                    (4, true) => 2,
                    (_, false) => 0,
                    _ => 1,
                };
                if cname == "lan" {
                    s.lats = vec![3];
                    s.ties = false;
                    s.dev = if t { 2 } else { 0 };
                    s.horizon = if t { 140_000 } else { 40_000 };
                    s.drop_window = (0, if t { 70_000 } else { 12_000 });
                }
                if cname == "periodic" && n == 4 && !t {
                    s.dev = 0;
                }
                s.max_states = if t { 8_000_000 } else { 1_500_000 };
                if n <= 3 && cname != "lan" && (t || kind == K_RENEW) {
                    // around the wrap of the probe numbers
                    let mut w = Net::base(
                        &format!("loss-wrap-n{n}-{cname}-k{kind}"),
                        formed(n, kind, &c, &phase),
                        s.mon.clone(),
                    );
                    w.skew = spread;
                    w.lats = vec![3];
                    w.m = 6;
                    w.drops = 1;
                    w.warm = WRAP;
                    w.drop_window = (WRAP, WRAP + 4 * PERIOD);
                    w.dev = if t { 2 } else { 0 };
                    w.max_states = if t { 2_000_000 } else { 100_000 };
                    scopes.push(w);
                }
                scopes.push(s);
            }
        }
    }
    other_streams(&mut scopes, t, 0, |_, _| true);
    Net::explore_many(scopes, r);
    r.count("longest_suspicion_ms_after_loss", WORST.load(Ordering::Relaxed));
    r.count("suspicions_refuted", REACHED.load(Ordering::Relaxed));
}

// ------------------------------------------------------------------ C05

#[derive(Clone)]
pub struct HealMon {
    bound: u64,
    /// when the cluster became whole again
    healed: Option<u64>,
    conv: Option<u64>,
    /// how long to keep watching after convergence (up to the bound)
    tail: u64,
    /// rejoined, Active not notified yet
    owes: u32,
    heals: u8,
    /// the first heal may come at any time, nothing is expected of it
    early: bool,
    /// someone crashed or left meanwhile
    gone: bool,
}
impl HealMon {
    /// every live member lists every other live one
    fn good(net: &NS<Self>) -> bool {
        let live = || net.nodes.iter().filter(|n| n.up && !n.left);
        live().all(|a| {
            live().all(|b| a.obs.me == b.obs.me || a.obs.act.iter().any(|m| *m.id() == b.obs.me))
        })
    }
    /// live members on either side
    fn sides(net: &NS<Self>, without: Option<u8>) -> (usize, usize) {
        let (mut a, mut b) = (0, 0);
        for (i, n) in net.nodes.iter().enumerate() {
            if n.up && !n.left && without != Some(i as u8) {
                if (net.cut >> i) & 1 == 1 {
                    a += 1;
                } else {
                    b += 1;
                }
            }
        }
        (a, b)
    }
}
impl NMon for HealMon {
    fn tick(&mut self, net: &NS<Self>, t: u64) -> Result<(), Viol> {
        if self.healed.is_some_and(|l| t > l + self.bound) {
            if !Self::good(net) {
                return viol(
                    "not-converged",
                    format!(
                        "{} ms after the heal: {}",
                        t - self.healed.unwrap_or(0),
                        show(net)
                    ),
                );
            }
            if self.owes != 0 {
                return viol(
                    "rejoined-not-active",
                    format!("nodes {:b} rejoined but never notified Active", self.owes),
                );
            }
        }
        Ok(())
    }
    fn fault_ok(&self, f: &Fault, net: &NS<Self>) -> bool {
        match f {
            // both sides have declared everybody on the other side Down (after a previous
            // heal, possibly under an identity renewed since)
            Fault::Heal if self.early && self.heals == 0 => true,
            Fault::Heal => net.nodes.iter().enumerate().all(|(i, a)| {
                net.nodes.iter().enumerate().all(|(j, b)| {
                    ((net.cut >> i) ^ (net.cut >> j)) & 1 == 0
                        || !(a.up && b.up)
                        || a.left
                        || b.left
                        || a.obs.rec(b.obs.me.addr).is_some_and(|m| {
                            m.state() == State::Down
                                && (*m.id() == b.obs.me || self.heals > 0 || self.gone)
                        })
                })
            }),
            // both sides stay alive and one keeps two or more members
            Fault::Crash(v) => {
                let (a, b) = Self::sides(net, v.first().copied());
                a.min(b) >= 1 && a.max(b) >= 2
            }
            Fault::Leave(x) => {
                let (a, b) = Self::sides(net, Some(*x));
                a.min(b) >= 1 && a.max(b) >= 2
            }
            _ => true,
        }
    }
    fn fault(&mut self, f: &Fault, net: &NS<Self>) {
        match f {
            Fault::Heal => {
                if !self.early || self.heals > 0 {
                    self.healed = Some(net.now);
                }
                self.heals += 1;
            }
            Fault::Told(..) => self.healed = Some(net.now),
            Fault::Cut(_) => {
                self.healed = None;
                self.conv = None;
            }
            Fault::Crash(_) | Fault::Leave(_) => self.gone = true,
            Fault::Mixed(..) => {}
        }
    }
    fn step(&mut self, s: &Step<'_, Self>) -> Result<(), Viol> {
        let mut me = s.o0.me;
        let mut rejoined = false;
        if s.net.nodes[s.node].left {
            // no longer one of those this is about
            self.owes &= !(1 << s.node);
            return Ok(());
        }
        for n in s.out.notes() {
            match n {
                N::Defunct => {
                    return viol(
                        "defunct",
                        format!("node {} notified Defunct as {:?}", s.node, s.o0.me),
                    )
                }
                N::Rejoin(x) => {
                    if *x == me || !wins(x, &me) {
                        return viol(
                            "rejoin-loses",
                            format!("node {} rejoined as {x:?}, was {me:?}", s.node),
                        );
                    }
                    me = *x;
                    rejoined = true;
                    self.owes |= 1 << s.node;
                }
                N::Active => self.owes &= !(1 << s.node),
                _ => {}
            }
        }
        if let Call::Data(d) = s.call {
            if parse(&s.codec, d)
                .is_ok_and(|p| p.h.message == Message::TurnUndead && p.h.dst == s.o0.me)
                && !rejoined
            {
                return viol(
                    "told-not-rejoined",
                    format!("node {} was told {:?} is down", s.node, s.o0.me),
                );
            }
        }
        if self.healed.is_some() && self.conv.is_none() && Self::good(s.net) && self.owes == 0 {
            self.conv = Some(s.t);
            reached(s.t - self.healed.unwrap_or(0));
        }
        Ok(())
    }
    fn done(&self, net: &NS<Self>) -> bool {
        // converged and stayed so
        self.healed.is_some_and(|l| {
            net.now > l + self.bound || self.conv.is_some_and(|c| net.now > c + self.tail)
        })
    }
    fn fp(&self, h: &mut H128, now: u64) {
        h.u64(self.owes as u64 | (self.conv.is_some() as u64) << 32 | (self.gone as u64) << 33);
        h.u64(self.heals as u64);
        if self.tail < self.bound {
            h.u64(self.conv.map_or(0, |c| 1 + now - c));
        }
        h.u64(self.healed.map_or(0, |l| 1 + (now - l).min(self.bound + 1)));
    }
}
/// The scopes explored around a single RNG stream, around others too: two of them in the quick tier
/// (where `quick` says so), six otherwise.
fn other_streams<M: Clone>(scopes: &mut Vec<Net<M>>, thorough: bool, dev: u8, quick: impl Fn(usize, &str) -> bool) {
    for (k, turn) in [(3, 0), (1, 1), (5, 0), (2, 1), (0, 2), (0, 5)].into_iter().enumerate() {
        if k >= 2 && !thorough {
            break;
        }
        let more: Vec<_> = scopes
            .iter()
            .filter(|s| s.dev <= 1 && s.m > 1 && s.turn == (0, 0))
            .filter(|s| thorough || s.dev <= dev && quick(k, &s.name))
            .map(|s| {
                let mut s = s.clone();
                s.turn = turn;
                s.name = format!("{}-rng{}.{}", s.name, turn.0, turn.1);
                s
            })
            .collect();
        scopes.extend(more);
    }
}
/// Everyone known as Down gets announced to: whichever and however many of them there are, some RNG
/// answer leads the announce-to-down timer (fired a few times) to each.
fn announced_downs(r: &mut Report) {
    if r.only.is_some() {
        return;
    }
    let t = r.thorough();
    let mut jobs = Vec::new();
    for d in 1..=if t { 7u8 } else { 5 } {
        for act in 1..=3u8 {
            for w in 1..=3usize {
                for former in 0..=1u8 {
                    for tight in [false, true] {
                        jobs.push((d, act, w, former, tight));
                    }
                }
            }
        }
    }
    let (mut n, mut done) = (0u64, 0u64);
    r.jobs(
        &jobs,
        |&(d, act, w, former, tight)| {
            let mut c = cfg();
            c.notify_down_members = true;
            c.periodic_announce_to_down_members = pp(2000, w);
            if tight {
                c.max_packet_size = nz(header_packet(&FIXED));
            }
            let me = idk(0, former, K_RENEW);
            let mut recs: Vec<Member<Id>> = (1..=act).map(|a| Member::alive(idk(a, 0, K_RENEW))).collect();
            let downs: Vec<Id> = (0..d).map(|i| idk(10 + i, i % 2, K_RENEW)).collect();
            recs.extend(downs.iter().map(|i| Member::new(*i, 0, foca::State::Down)));
            if former > 0 {
                recs.push(Member::new(idk(0, 0, K_RENEW), 0, foca::State::Down));
            }
            let bad = |msg: String| {
                (
                    Viol {
                        sig: "down-unannounced".into(),
                        msg,
                    },
                    format!("Down: {downs:?}, active: {act}, own former identity Down: {former}, announces to {w} at a time, datagrams of {}", c.max_packet_size),
                )
            };
            let mut base = Sut::new(&Init::new(me, c.clone()));
            let out = quiet_rng(|| base.exec(&Call::Apply(recs.clone(), false)));
            let Some((timer, _)) = out
                .timers()
                .find(|(t, _)| matches!(t, foca::Timer::PeriodicAnnounceDown(_)))
                .map(|(t, a)| (t.clone(), a))
            else {
                return Err(bad("no announce-to-down timer while active".into()));
            };
            let mut told = std::collections::BTreeSet::new();
            let mut calls = 0u64;
            let (mut firings, mut failed) = (0, None);
            all_scripts(8, 40_000, |script| {
                if downs.iter().all(|i| told.contains(i)) || failed.is_some() {
                    // (nothing left to find out)
                    return 0;
                }
                let mut s = base.clone();
                let mut timer = timer.clone();
                let mut used = 0;
                for k in 0..2 * (d as usize + 1) {
                    let call = Call::Timer(timer.clone());
                    let out = if k == 0 {
                        with_rng(8, script, || s.exec(&call))
                    } else {
                        quiet_rng(|| s.exec(&call))
                    };
                    if k == 0 {
                        used = out.draws;
                    }
                    calls += 1;
                    firings += 1;
                    if !out.ok() {
                        failed = Some(format!("{:?} fails", call));
                        break;
                    }
                    for (to, _) in out.sends() {
                        told.insert(*to);
                    }
                    let next = out
                        .timers()
                        .find(|(t, _)| matches!(t, foca::Timer::PeriodicAnnounceDown(_)))
                        .map(|(t, _)| t.clone());
                    match next {
                        Some(t) => timer = t,
                        None => break,
                    }
                }
                used
            });
            if let Some(e) = failed {
                return Err(bad(e));
            }
            if let Some(i) = downs.iter().find(|i| !told.contains(i)) {
                return Err(bad(format!(
                    "{i:?} is known as Down and never announced to in {firings} firings"
                )));
            }
            Ok(calls)
        },
        |k| {
            n += k;
            done += 1;
        },
    );
    r.transitions += n;
    r.validated += done;
    r.count("announced_down_sets", done);
    r.scope_line(format!(
        "announced-downs: {done} memberships, {n} firings of the announce-to-down timer, every RNG answer until everybody Down has been announced to"
    ));
}
pub fn c05(r: &mut Report) {
    announced_downs(r);
    r.rule = "formed clusters of real instances in virtual time; every split at every event of a rotation, healed at every event once both sides have declared each other Down; single members falsely declared Down by one or all others at every event; every RNG answer or every run within a number of deviations; explored until no new state exists".into();
    r.assumptions.push("identities declared Down are not forgotten before the heal (remove_down_after is far away)".into());
    let t = r.thorough();
    let mut scopes: Vec<Net<HealMon>> = Vec::new();
    let mut base = cfg();
    tx(&mut base, 6);
    base.num_indirect_probes = nz(2);
    base.suspect_to_down_after = ms(1500);
    base.remove_down_after = ms(1_000_000_000);
    base.notify_down_members = true;
    base.periodic_announce_to_down_members = pp(2000, 8);
    let mut cfgs = vec![("plain", base.clone())];
    let mut c = base.clone();
    c.periodic_gossip = pp(500, 2);
    c.periodic_announce = pp(3000, 1);
    tx(&mut c, 3);
    cfgs.push(("periodic", c));
    // one transmission per update, one helper per probe
    let mut c = base.clone();
    tx(&mut c, 1);
    c.num_indirect_probes = nz(1);
    cfgs.push(("scarce", c));
    // room for a single update per datagram
    let mut c = base.clone();
    c.max_packet_size =
        nz(header_packet(&FIXED) + 2 + FIXED.enc_member(&Member::alive(nid(0, K_RENEW))).len());
    cfgs.push(("tight", c));
    for n in 3..=5usize {
        for (cname, c) in &cfgs {
            if n == 5 && *cname != "plain" && !t {
                continue;
            }
            let phase: Vec<u64> = (0..n as u64).map(|i| 100 + i * 230).collect();
            let mk = |what: &str| {
                let mut s = Net::base(
                    &format!("{what}-n{n}-{cname}"),
                    formed(n, K_RENEW, c, &phase),
                    HealMon {
                        bound: 10 * 2000,
                        healed: None,
                        conv: None,
                        tail: 10 * 2000,
                        owes: 0,
                        heals: 0,
                        early: false,
                        gone: false,
                    },
                );
                s.skew = spread;
                s.lats = vec![3];
                s.m = 6;
                s.far = 100_000_000;
                s.dev = match (n, t) {
                    (3, false) => 1,
                    (3, true) => 3,
                    (4, true) => 1,
                    _ => 0,
                };
                s.max_states = if t { 8_000_000 } else { 1_000_000 };
                s
            };
            // splits, node 0 on the unmarked side
            let splits: Vec<Fault> = (1..1u32 << (n - 1)).map(|m| Fault::Cut(m << 1)).collect();
            for sp in splits {
                if n == 5 && !t && !matches!(sp, Fault::Cut(2 | 16 | 12 | 30)) {
                    continue;
                }
                if n == 4
                    && !t
                    && matches!(*cname, "scarce" | "tight")
                    && !matches!(sp, Fault::Cut(2 | 6 | 14))
                {
                    continue;
                }
                let mut s = mk(&format!("heal-{sp:?}"));
                s.faults = vec![
                    (
                        vec![sp],
                        (1000, if t { 1000 + 1000 * n as u64 } else { 2000 }),
                    ),
                    (vec![Fault::Heal], (0, u64::MAX)),
                ];
                scopes.push(s);
            }
            // someone dies or leaves while the cluster is split
            if n >= 4 {
                for sp in [2u32, 6, 14, 8] {
                    let roomy = n == 4 && *cname == "scarce" && (sp == 2 || sp == 6);
                    if n == 5 && !t && sp != 6 {
                        continue;
                    }
                    let mut s = mk(&format!("heal-loss-{sp:b}"));
                    s.dev = 0;
                    if !t {
                        s.mon.tail = 4000;
                    }
                    let gone = (0..n as u8)
                        .flat_map(|x| [Fault::Crash(vec![x]), Fault::Leave(x)])
                        .collect();
                    s.faults = vec![
                        (vec![Fault::Cut(sp)], (1000, 1000 + if t || roomy { 1000 } else { 100 })),
                        (gone, (1100, if t || roomy { 6000 } else { 2500 })),
                        (vec![Fault::Heal], (0, if t { 20_000 } else { 8_000 })),
                    ];
                    scopes.push(s);
                }
            }
            // split again, whatever the first heal has come to
            for (a, b) in [(2u32, 2u32), (2, 4), (6, 2), (4, 6), (6, 6)] {
                if (n == 5 || n == 4 && *cname != "plain") && !t && (a, b) != (6, 2) {
                    continue;
                }
                let mut s = mk(&format!("heal-twice-{a:b}-{b:b}"));
                s.dev = 0;
                if !t {
                    s.mon.tail = 4000;
                }
                s.faults = vec![
                    (vec![Fault::Cut(a)], (1000, 1000 + if t { 500 } else { 100 })),
                    (vec![Fault::Heal], (0, if t { 20_000 } else { 8_000 })),
                    (vec![Fault::Cut(b)], (0, if t { 24_000 } else { 10_000 })),
                    (vec![Fault::Heal], (0, if t { 40_000 } else { 20_000 })),
                ];
                scopes.push(s);
            }
            // a short disturbance first: suspicions raised and refuted, one side gone or not
            for (a, b) in [(2u32, 2u32), (2, 4), (6, 2)] {
                if !t && (n == 5 || n == 4 && (*cname != "plain" || (a, b) != (2, 2))) {
                    continue;
                }
                let mut s = mk(&format!("disturbed-{a:b}-{b:b}"));
                s.dev = 0;
                s.mon.early = true;
                if !t {
                    s.mon.tail = 4000;
                }
                s.faults = vec![
                    (vec![Fault::Cut(a)], (1000, 1000 + if t { 500 } else { 100 })),
                    (vec![Fault::Heal], (1000, if t { 12_000 } else { 5_000 })),
                    (vec![Fault::Cut(b)], (1000, if t { 16_000 } else { 8_000 })),
                    (vec![Fault::Heal], (0, if t { 30_000 } else { 16_000 })),
                ];
                scopes.push(s);
            }
            let mut told = Vec::new();
            for x in 0..n as u8 {
                told.push(Fault::Told(u32::MAX, x));
                for o in 0..n as u8 {
                    if o != x {
                        told.push(Fault::Told(1 << o, x));
                    }
                }
            }
            let mut s = mk("falsely-down");
            s.faults = vec![(told, (1000, if t { u64::MAX } else { 4000 }))];
            scopes.push(s);
        }
    }
    other_streams(&mut scopes, t, 0, |k, n| {
        let long = n.contains("-n5-") || n.ends_with("periodic") || n.starts_with("disturbed");
        n.ends_with("scarce") || k == 0 && !long
    });
    Net::explore_many(scopes, r);
    r.count("longest_convergence_ms", WORST.load(Ordering::Relaxed));
    r.count("converged_runs", REACHED.load(Ordering::Relaxed));
}
#[allow(dead_code)]
fn _u(_: Message<Id>) {}
