//! C14: round-robin probing. One transition is a whole probe round of the real instance (with
//! every outcome of its shuffle) or a change of the set of known members.
use crate::base::*;
use crate::explore::*;
use foca::{Member, Message, OwnedNotification as N, State, Timer};

const ME: Id = idk(0, 1, K_RENEW);

#[derive(Clone)]
pub struct RS {
    sut: Sut,
    /// outstanding effective probe timer
    probe: Option<Timer<Id>>,
    /// current round: its target, number and indirect timer
    round: Option<(Id, u8, Timer<Id>)>,
    /// rounds since the watched member was pinged or the member set changed
    since: usize,
    changes: usize,
}
pub struct Rounds {
    pub name: String,
    /// addresses that may be known, the first one is watched
    pub pool: Vec<u8>,
    /// at most this many records
    pub l: usize,
    pub m: u32,
    /// at most this many changes (usize::MAX: any number)
    pub changes: usize,
    pub noack: bool,
}
const K_ACK: u32 = 0;
const K_NOACK: u32 = 1;
const K_CHANGE: u32 = 10;

#[derive(Clone, Copy, Debug)]
enum Change {
    Join(Id),
    Down(Id),
    Forget(Id),
}
impl Rounds {
    fn cfg() -> foca::Config {
        let mut c = cfg();
        c.max_transmissions = std::num::NonZeroU8::new(1).unwrap();
        c.num_indirect_probes = nz(1);
        c.notify_down_members = false;
        c
    }
    fn changes_of(&self, o: &Obs) -> Vec<Change> {
        let mut v = Vec::new();
        for &a in &self.pool {
            match o.rec(a) {
                None if o.all.len() < self.l => {
                    v.push(Change::Join(id(a, 0)));
                    v.push(Change::Down(id(a, 0)));
                }
                None => {}
                Some(m) => {
                    if m.state() == State::Down {
                        v.push(Change::Forget(*m.id()));
                    } else {
                        v.push(Change::Down(*m.id()));
                    }
                    if m.id().gen == 0 {
                        v.push(Change::Join(id(a, 1)));
                    }
                }
            }
        }
        v
    }
    fn absorb(&self, s: &mut RS, out: &Out) {
        for e in &out.eff {
            match e {
                Eff::Timer {
                    t: t @ Timer::ProbeRandomMember(_),
                    ..
                } => s.probe = Some(t.clone()),
                Eff::Timer {
                    t: t @ Timer::SendIndirectProbe { .. },
                    ..
                } => {
                    if let Some(r) = s.round.as_mut() {
                        r.2 = t.clone();
                    }
                }
                Eff::Send { dst, data } => {
                    if let Ok(p) = parse(&FIXED, data) {
                        if let Message::Ping(n) = p.h.message {
                            s.round = Some((*dst, n, Timer::RemoveDown(*dst)));
                        }
                    }
                }
                Eff::Notify(N::Idle | N::Defunct) => {
                    s.probe = None;
                    s.round = None;
                }
                Eff::Notify(_) => {}
                Eff::Timer { .. } => {}
            }
        }
    }
    fn panicked(out: &Out) -> Option<Viol> {
        match &out.res {
            Res::Panic(p) => Some(Viol {
                sig: "panic".into(),
                msg: p.clone(),
            }),
            _ => None,
        }
    }
    /// the whole round `kind`, its last step (choosing the next target) under `script`
    fn round(&self, s0: &RS, kind: u32, script: &[u8]) -> (Result<Option<RS>, Viol>, usize) {
        let mut s = s0.clone();
        if let Some((target, num, ind)) = s.round.clone() {
            if kind == K_ACK {
                let inc = s.sut.obs().rec(target.addr).map_or(0, |m| m.incarnation());
                let d = build(&FIXED, target, inc, ME, Message::Ack(num), &[], &[]);
                let out = with_rng(1, &[], || s.sut.exec(&Call::Data(d)));
                if let Some(v) = Self::panicked(&out) {
                    return (Err(v), 0);
                }
                self.absorb(&mut s, &out);
            }
            let out = with_rng(1, &[], || s.sut.exec(&Call::Timer(ind)));
            if let Some(v) = Self::panicked(&out) {
                return (Err(v), 0);
            }
        }
        let o = s.sut.obs();
        let Some(p) = s.probe.take() else {
            return (Ok(None), 0);
        };
        let out = with_rng(self.m, script, || s.sut.exec(&Call::Timer(p)));
        let used = out.draws;
        if let Some(v) = Self::panicked(&out) {
            return (Err(v), used);
        }
        let pings: Vec<Id> = out
            .sends()
            .filter_map(|(d, b)| match parse(&FIXED, b) {
                Ok(p) if matches!(p.h.message, Message::Ping(_)) => Some(*d),
                _ => None,
            })
            .collect();
        let r = (|| {
            let list: Vec<String> = o.all.iter().map(fmt_m).collect();
            if pings.len() != 1 {
                return viol(
                    "ping-count",
                    format!("round pinged {pings:?}, members {list:?}"),
                );
            }
            let t = pings[0];
            if t.addr == ME.addr {
                return viol("ping-self", format!("round pinged {t:?}, members {list:?}"));
            }
            if !o.is_active(&t) {
                return viol(
                    "ping-inactive",
                    format!("round pinged {t:?}, members {list:?}"),
                );
            }
            self.absorb(&mut s, &out);
            let watched = o.rec(self.pool[0]).filter(|m| m.state() != State::Down);
            match watched {
                Some(m) if *m.id() == t => s.since = 0,
                Some(m) => {
                    s.since += 1;
                    let n = o.act.len();
                    if s.since >= 2 * n - 1 {
                        return viol(
                            "starved",
                            format!(
                                "{:?} not pinged in {} rounds with {n} active members ({list:?})",
                                m.id(),
                                s.since
                            ),
                        );
                    }
                }
                None => s.since = 0,
            }
            Ok(Some(s))
        })();
        (r, used)
    }
    fn change(&self, s0: &RS, c: Change, script: &[u8]) -> (Result<Option<RS>, Viol>, usize) {
        let mut s = s0.clone();
        let call = match c {
            Change::Join(i) => Call::Apply(vec![Member::new(i, 0, State::Alive)], false),
            Change::Down(i) => Call::Apply(vec![Member::new(i, 0, State::Down)], false),
            Change::Forget(i) => Call::Timer(Timer::RemoveDown(i)),
        };
        let out = with_rng(self.m, script, || s.sut.exec(&call));
        if let Some(v) = Self::panicked(&out) {
            return (Err(v), out.draws);
        }
        self.absorb(&mut s, &out);
        s.since = 0;
        s.changes += 1;
        (Ok(Some(s)), out.draws)
    }
    fn run(&self, s: &RS, act: u32, script: &[u8]) -> (Result<Option<RS>, Viol>, usize) {
        if act < K_CHANGE {
            self.round(s, act, script)
        } else {
            let o = s.sut.obs();
            match self.changes_of(&o).get((act - K_CHANGE) as usize) {
                Some(c) => self.change(s, *c, script),
                None => (Ok(None), 0),
            }
        }
    }
    fn acts(&self, s: &RS) -> Vec<u32> {
        let mut v = Vec::new();
        if s.probe.is_some() {
            v.push(K_ACK);
            if s.round.is_some() && self.noack {
                v.push(K_NOACK);
            }
        }
        if s.changes < self.changes {
            for i in 0..self.changes_of(&s.sut.obs()).len() {
                v.push(K_CHANGE + i as u32);
            }
        }
        v
    }
}
/// Replace counters that do not matter here by nothing, and rename the interchangeable
/// identities (every pool address but the watched one) by order of appearance.
fn canon(d: &str, free: &[u8]) -> String {
    let mut s = String::with_capacity(d.len());
    let mut rest = d;
    let names = ["probe_number: ", "timer_token: "];
    'o: while !rest.is_empty() {
        for n in names {
            if let Some(r) = rest.strip_prefix(n) {
                let k = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                s.push_str(n);
                rest = &r[k..];
                continue 'o;
            }
        }
        let mut c = rest.chars();
        let ch = c.next().unwrap();
        s.push(ch);
        rest = c.as_str();
    }
    let mut out = String::with_capacity(s.len());
    let mut map: Vec<u8> = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let at_start = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'.');
        if at_start
            && i + 2 < b.len()
            && b[i].is_ascii_digit()
            && b[i + 1] == b'.'
            && b[i + 2].is_ascii_digit()
        {
            let a = b[i] - b'0';
            if free.contains(&a) {
                let k = map.iter().position(|x| *x == a).unwrap_or_else(|| {
                    map.push(a);
                    map.len() - 1
                });
                out.push_str(&format!("#{k}"));
                i += 1;
                continue;
            }
        }
        out.push(b[i] as char);
        i += 1;
    }
    out
}
impl Model for Rounds {
    type S = RS;
    fn init(&self) -> Vec<RS> {
        let init = Init::new(ME, Self::cfg());
        vec![RS {
            sut: Sut::new(&init),
            probe: None,
            round: None,
            since: 0,
            changes: 0,
        }]
    }
    fn succ(&self, s: &RS, sink: &mut dyn FnMut(Lbl, Result<Option<RS>, Viol>)) {
        for a in self.acts(s) {
            all_scripts(self.m, 1_000_000, |script| {
                let (r, used) = self.run(s, a, script);
                let mut full = script.to_vec();
                full.resize(used, 0);
                sink(
                    Lbl {
                        act: a,
                        script: full,
                    },
                    r,
                );
                used
            });
        }
    }
    fn fp(&self, s: &RS) -> u128 {
        let mut h = H128::default();
        let d = s.sut.dump();
        let free: Vec<u8> = self.pool[1..]
            .iter()
            .copied()
            .filter(|a| *a != ME.addr)
            .collect();
        let extra = format!(
            "|{:?} {} {}",
            s.round.as_ref().map(|r| r.0),
            s.probe.is_some(),
            s.since
        );
        h.bytes(canon(&(d + &extra), &free).as_bytes());
        if self.changes != usize::MAX {
            h.u64(s.changes as u64);
        }
        h.finish()
    }
    fn describe(&self, s: &RS, l: &Lbl) -> String {
        let o = s.sut.obs();
        let what = match l.act {
            K_ACK => format!(
                "round about {:?}: Ack, indirect timer, probe timer rng={:?}",
                s.round.as_ref().map(|r| r.0),
                l.script
            ),
            K_NOACK => format!(
                "round about {:?}: no Ack, indirect timer, probe timer rng={:?}",
                s.round.as_ref().map(|r| r.0),
                l.script
            ),
            a => format!(
                "{:?} rng={:?}",
                self.changes_of(&o).get((a - K_CHANGE) as usize),
                l.script
            ),
        };
        let after = match self.run(s, l.act, &l.script).0 {
            Ok(Some(n)) => format!(
                "pinging {:?}, records {:?}, {} rounds since the watched member was pinged",
                n.round.as_ref().map(|r| r.0),
                n.sut.obs().all.iter().map(fmt_m).collect::<Vec<_>>(),
                n.since
            ),
            Ok(None) => String::new(),
            Err(v) => v.msg,
        };
        format!("{what} -> {after}")
    }
    fn class(&self, _s: &RS, l: &Lbl) -> &'static str {
        match l.act {
            K_ACK => "round-acked",
            K_NOACK => "round-failed",
            _ => "membership-change",
        }
    }
}

pub fn c14(r: &mut Report) {
    let t = r.thorough();
    r.rule = "a transition is one whole probe round of the real instance under every outcome of its shuffle, or one membership change; the watched member's rounds-since-last-ping counter must stay below 2n-1; identities other than the watched one are interchangeable and merged".into();
    let hook = cfg!(foca_verif);
    let fact = [1u32, 1, 2, 6, 24, 120, 720];
    // the RNG menu really yields every permutation of a shuffle
    for k in 2..=6usize {
        use rand::seq::SliceRandom;
        let mut seen = std::collections::HashSet::new();
        all_scripts(fact[k], 10_000_000, |script| {
            with_rng(fact[k], script, || {
                let mut v: Vec<usize> = (0..k).collect();
                v.shuffle(&mut McRng(0));
                seen.insert(v);
            });
            RNG.with(|r| r.borrow().used)
        });
        r.count(&format!("shuffle_outcomes_of_{k}"), seen.len() as u64);
        if seen.len() != fact[k] as usize {
            r.exhaustive = false;
        }
    }
    let mut go = |name: &str, pool: Vec<u8>, l: usize, changes: usize, noack: bool, cap: usize| {
        let m = Rounds {
            name: name.into(),
            pool,
            l,
            m: fact[l],
            changes,
            noack,
        };
        let name = m.name.clone();
        r.bfs(
            &name,
            &m,
            Limits {
                depth: if hook { 10_000 } else { 5 },
                max_states: if hook { cap } else { 1000 },
            },
        );
    };
    // any history of joins, deaths, renames and forgets between rounds
    go("any-history-1", vec![1], 1, usize::MAX, true, 1_000_000);
    go("any-history-2", vec![1, 2], 2, usize::MAX, true, 1_000_000);
    go(
        "any-history-3",
        vec![1, 2, 3],
        3,
        usize::MAX,
        true,
        3_000_000,
    );
    // a Down record bearing the instance's own address in between
    go(
        "own-address-3",
        vec![1, 2, 0],
        3,
        usize::MAX,
        true,
        3_000_000,
    );
    go(
        "any-history-4",
        vec![1, 2, 3, 4],
        4,
        usize::MAX,
        t,
        3_000_000,
    );
    if t {
        go(
            "own-address-4",
            vec![1, 2, 3, 0],
            4,
            usize::MAX,
            true,
            6_000_000,
        );
        go(
            "any-history-5",
            vec![1, 2, 3, 4, 5],
            5,
            usize::MAX,
            false,
            12_000_000,
        );
        go(
            "six-records",
            vec![1, 2, 3, 4, 5, 6],
            6,
            7,
            false,
            12_000_000,
        );
    } else {
        go("five-records", vec![1, 2, 3, 4, 5], 5, 6, false, 300_000);
    }
    many(r);
}

/// Many members: every size of a menu, every share and arrangement of Down records, a menu of
/// RNG streams; membership changes between stretches of rounds. Every active member has its own
/// counter of rounds since it was last pinged.
fn many(r: &mut Report) {
    if r.only.is_some() {
        return;
    }
    let t = r.thorough();
    let mut jobs = Vec::new();
    let sizes: Vec<usize> = if t {
        (1..=40).chain([48, 63, 64, 65, 100, 127, 128, 129, 200, 240]).collect()
    } else {
        (1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 200]).collect()
    };
    for &n in &sizes {
        for d in [0, 1, 3, n / 2, n, 3 * n] {
            if n + d > 250 {
                continue;
            }
            for arr in 0..4u8 {
                if d == 0 && arr > 0 {
                    continue;
                }
                let streams = match n {
                    _ if t => 24,
                    1..=20 => 8,
                    _ => 2,
                };
                for stream in 0..streams {
                    jobs.push((n, d, arr, stream as u64));
                }
            }
        }
    }
    let mut rounds = 0u64;
    r.jobs(
        &jobs,
        |&(n, d, arr, stream)| {
            many_run(n, d, arr, stream).map_err(|v| {
                let what = format!("{n} active and {d} down members, arrangement {arr}, RNG stream {stream}");
                (
                    Viol {
                        sig: format!("many-{}", v.sig),
                        msg: format!("{} ({what})", v.msg),
                    },
                    format!("init: {what}"),
                )
            })
        },
        |k| rounds += k,
    );
    r.count("rounds_with_many_members", rounds);
    r.transitions += rounds;
    r.scope_line(format!("many-members: {} cases, {rounds} rounds", jobs.len()));
}

fn many_run(n: usize, d: usize, arr: u8, stream: u64) -> Result<u64, Viol> {
    // streams 0..3 always give the same answer
    let mut x = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(stream + 1);
    let mut script = |len: usize| -> Vec<u8> {
        (0..len)
            .map(|i| match stream {
                0 => 0,
                1 => 255,
                2 => (i * 37) as u8,
                _ => {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (x >> 56) as u8
                }
            })
            .collect()
    };
    // identities 1..=n are active, the rest Down: in front, at the end, alternating, in the middle
    let act: Vec<_> = (1..=n).map(|a| Member::new(id(a as u8, 0), 0, State::Alive)).collect();
    let down: Vec<_> = (n + 1..=n + d).map(|a| Member::new(id(a as u8, 0), 0, State::Down)).collect();
    let all: Vec<_> = match arr {
        0 => down.into_iter().chain(act).collect(),
        1 => act.into_iter().chain(down).collect(),
        2 => {
            let (mut a, mut b) = (act.into_iter(), down.into_iter());
            let mut v = Vec::new();
            loop {
                let (x, y) = (a.next(), b.next());
                if x.is_none() && y.is_none() {
                    break v;
                }
                v.extend(x);
                v.extend(y);
            }
        }
        _ => {
            let mut v = act;
            let tail = v.split_off(v.len() / 2);
            v.extend(down);
            v.extend(tail);
            v
        }
    };
    let m = Rounds {
        name: "many".into(),
        pool: vec![1],
        l: 0,
        m: 256,
        changes: 0,
        noack: true,
    };
    let mut s = RS {
        sut: Sut::new(&Init::new(ME, Rounds::cfg())),
        probe: None,
        round: None,
        since: 0,
        changes: 0,
    };
    let boom = |out: &Out| Rounds::panicked(out).map_or(Ok(()), Err);
    let sc = script(4 * all.len() + 8);
    let out = with_rng(256, &sc, || s.sut.exec(&Call::Apply(all, false)));
    boom(&out)?;
    m.absorb(&mut s, &out);
    let mut total = 0u64;
    let mut since = [0usize; 256];
    for stretch in 0..3u8 {
        let o = s.sut.obs();
        let n = o.act.len();
        if n == 0 {
            break;
        }
        since.fill(0);
        for round in 0..3 * (2 * n - 1) {
            total += 1;
            if let Some((target, num, ind)) = s.round.take() {
                // in the second stretch nobody answers
                if stretch != 1 {
                    let inc = s.sut.obs().rec(target.addr).map_or(0, |m| m.incarnation());
                    let d = build(&FIXED, target, inc, ME, Message::Ack(num), &[], &[]);
                    let out = with_rng(1, &[], || s.sut.exec(&Call::Data(d)));
                    boom(&out)?;
                    m.absorb(&mut s, &out);
                }
                let out = with_rng(1, &[], || s.sut.exec(&Call::Timer(ind)));
                boom(&out)?;
            }
            let Some(p) = s.probe.take() else {
                return viol("no-round", format!("no probe timer in round {round}"));
            };
            let sc = script(4 * o.all.len() + 8);
            let out = with_rng(256, &sc, || s.sut.exec(&Call::Timer(p)));
            boom(&out)?;
            m.absorb(&mut s, &out);
            let pings: Vec<Id> = out
                .sends()
                .filter_map(|(d, b)| match parse(&FIXED, b) {
                    Ok(p) if matches!(p.h.message, Message::Ping(_)) => Some(*d),
                    _ => None,
                })
                .collect();
            let &[t] = &pings[..] else {
                return viol("ping-count", format!("round {round} pinged {pings:?}"));
            };
            if !o.is_active(&t) {
                return viol("ping-inactive", format!("round {round} pinged {t:?}, active {:?}", o.act));
            }
            for a in o.act.iter().map(|m| m.id().addr as usize) {
                since[a] += 1;
            }
            since[t.addr as usize] = 0;
            if let Some(a) = o.act.iter().find(|m| since[m.id().addr as usize] >= 2 * n - 1) {
                return viol(
                    "starved",
                    format!("{:?} not pinged in {} rounds with {n} active members", a.id(), 2 * n - 1),
                );
            }
        }
        // then one more joins, one is renamed, every third one goes Down, Down ones are forgotten
        let mut calls = Vec::new();
        match stretch {
            0 => {
                calls.push(Call::Apply(
                    vec![
                        Member::new(id(253, 0), 0, State::Alive),
                        Member::new(id(1, 1), 0, State::Alive),
                    ],
                    false,
                ));
            }
            _ => {
                for (i, m) in o.act.iter().enumerate() {
                    if i % 3 == 1 {
                        calls.push(Call::Apply(vec![Member::new(*m.id(), 0, State::Down)], false));
                    }
                }
                for (i, m) in o.all.iter().filter(|m| m.state() == State::Down).enumerate() {
                    if i % 2 == 0 {
                        calls.push(Call::Timer(Timer::RemoveDown(*m.id())));
                    }
                }
            }
        }
        for c in calls {
            let sc = script(8);
            let out = with_rng(256, &sc, || s.sut.exec(&c));
            boom(&out)?;
            m.absorb(&mut s, &out);
        }
    }
    Ok(total)
}
