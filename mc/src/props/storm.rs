//! C18: with timers held, the exchange triggered by one datagram among real instances ends.
use crate::base::*;
use crate::explore::*;
use foca::State::{Alive, Down, Suspect};
use foca::{Member, Message, State};
use std::collections::HashMap;

#[derive(Clone)]
struct Net {
    suts: Vec<Sut>,
    /// in flight: receiver index, datagram (sorted)
    fl: Vec<(usize, Vec<u8>)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Own {
    Fresh,
    Undead,
    Renewed,
    /// renewed, and with updates still to gossip
    Chatty,
    Max,
}
#[derive(Clone, Debug)]
struct Scn {
    kinds: Vec<u8>,
    own: Vec<Own>,
    /// what instance i knows about j
    know: Vec<Vec<Option<(u8, State)>>>,
    notify: Vec<bool>,
    /// how many other (unresponsive) active members each instance knows
    crowd: Vec<u8>,
    /// room for updates in a datagram: everything or very few
    tight: bool,
    /// a custom broadcast to pass on
    items: bool,
}
const BASE: u8 = 1;

impl Scn {
    fn n(&self) -> usize {
        self.kinds.len()
    }
    fn build(&self) -> Vec<Sut> {
        let n = self.n();
        let mut v = Vec::new();
        for i in 0..n {
            let mut c = cfg();
            c.notify_down_members = self.notify[i];
            c.num_indirect_probes = nz(3);
            c.max_transmissions = std::num::NonZeroU8::new(2).unwrap();
            if self.tight {
                c.max_packet_size = nz(24);
            }
            let mut s = Sut::new(&Init::new(idk(i as u8, BASE, self.kinds[i]), c));
            let mut ex = |c: Call| {
                let _ = with_rng(1, &[], || s.exec(&c));
            };
            match self.own[i] {
                Own::Fresh => {}
                Own::Undead => ex(Call::Leave),
                Own::Renewed | Own::Chatty => {
                    ex(Call::ChangeId(idk(i as u8, BASE + 1, self.kinds[i])))
                }
                Own::Max => ex(Call::Apply(
                    vec![Member::new(
                        idk(i as u8, BASE, self.kinds[i]),
                        u16::MAX - 1,
                        Suspect,
                    )],
                    false,
                )),
            }
            let mut ms = Vec::new();
            for j in 0..n {
                if let Some((g, st)) = self.know[i][j] {
                    ms.push(Member::new(idk(j as u8, BASE + g, self.kinds[j]), 0, st));
                }
            }
            for k in 0..self.crowd[i] {
                ms.push(Member::new(id(30 + k, 0), 0, Alive));
            }
            ex(Call::Apply(ms, self.own[i] == Own::Chatty));
            if self.items {
                ex(Call::AddB(vec![1 + i as u8, 1]));
            }
            v.push(s);
        }
        v
    }
    fn describe(&self) -> String {
        format!("{self:?}")
    }
}
struct Job {
    scn: Scn,
    menu: u8,
}
#[derive(Default)]
struct Stat {
    starts: u64,
    states: u64,
    deliveries: u64,
    longest: u64,
    widest: u64,
    capped: u64,
}
fn fp(n: &Net) -> u128 {
    let mut h = H128::default();
    for s in &n.suts {
        h.bytes(s.dump().as_bytes());
        h.bytes(b"|");
    }
    h.dbg(&n.fl);
    h.finish()
}
fn fmt_flight(n: &Net) -> String {
    n.fl.iter()
        .map(|(_, d)| match parse(&FIXED, d) {
            Ok(p) => format!(
                "{:?} {:?}->{:?} {:?}",
                p.h.message,
                p.h.src,
                p.h.dst,
                p.ups.iter().flatten().map(fmt_m).collect::<Vec<_>>()
            ),
            Err(e) => e,
        })
        .collect::<Vec<_>>()
        .join(", ")
}
const LONGEST: usize = 60;
struct Dfs<'a> {
    st: &'a mut Stat,
    /// value: longest continuation (None: on the current path)
    seen: HashMap<u128, Option<usize>>,
    path: Vec<String>,
    cap: usize,
}
impl Dfs<'_> {
    fn go(&mut self, n: &Net) -> Result<usize, Viol> {
        if n.fl.is_empty() {
            return Ok(0);
        }
        if self.path.len() > LONGEST {
            return viol(
                "storm",
                format!(
                    "still {} datagrams in flight after {} deliveries with timers held: {}",
                    n.fl.len(),
                    self.path.len(),
                    fmt_flight(n)
                ),
            );
        }
        let f = fp(n);
        match self.seen.get(&f) {
            Some(Some(d)) => return Ok(*d),
            Some(None) => {
                return viol(
                    "cycle",
                    format!(
                        "the exchange repeats itself forever; in flight: {}",
                        fmt_flight(n)
                    ),
                )
            }
            None => {}
        }
        if self.seen.len() >= self.cap {
            self.st.capped += 1;
            // follow one order only (first in, first out)
        }
        self.st.states += 1;
        self.seen.insert(f, None);
        let mut longest = 0;
        let mut prev: Option<&(usize, Vec<u8>)> = None;
        for k in 0..n.fl.len() {
            if prev == Some(&n.fl[k]) {
                continue;
            }
            prev = Some(&n.fl[k]);
            let mut m = n.clone();
            let (to, d) = m.fl.remove(k);
            self.st.deliveries += 1;
            let selfups = parse(&FIXED, &d).map_or(0, |p| {
                p.ups
                    .iter()
                    .flatten()
                    .filter(|u| u.id().addr == to as u8)
                    .count()
            });
            let out = with_rng(1, &[], || m.suts[to].exec(&Call::Data(d.clone())));
            let mut line = fmt_call(&Call::Data(d), &FIXED);
            line.push_str(&format!(" -> {:?}", out.res));
            for e in &out.eff {
                line.push_str("; ");
                line.push_str(&fmt_eff(e, &FIXED));
            }
            self.path.push(line);
            if let Res::Panic(p) = &out.res {
                return viol("panic", p.clone());
            }
            let sent = out.sends().count();
            self.st.widest = self.st.widest.max(sent as u64);
            // one answer, one TurnUndead and a round of gossip per update about itself
            let bound = 3 * (selfups + 1) + 2;
            if sent > bound {
                return viol("fan-out", format!("one datagram caused {sent} new ones"));
            }
            for (dst, b) in out.sends() {
                if (dst.addr as usize) < m.suts.len() {
                    m.fl.push((dst.addr as usize, b.clone()));
                }
            }
            m.fl.sort();
            longest = longest.max(1 + self.go(&m)?);
            self.path.pop();
            if self.seen.len() >= self.cap {
                break;
            }
        }
        self.seen.insert(f, Some(longest));
        Ok(longest)
    }
}
fn injections(scn: &Scn, suts: &[Sut], menu: u8) -> Vec<(usize, Vec<u8>)> {
    let n = scn.n();
    let mut v = Vec::new();
    let ids: Vec<Id> = suts.iter().map(|s| *s.f.identity()).collect();
    for a in 0..n {
        for b in 0..n {
            if a == b {
                continue;
            }
            let mut srcs = vec![ids[a]];
            let mut dsts = vec![ids[b]];
            let old = Id {
                gen: BASE,
                ..ids[a]
            };
            if old != ids[a] {
                srcs.push(old);
            }
            if menu > 1 {
                dsts.push(Id {
                    gen: ids[b].gen + 1,
                    ..ids[b]
                });
            }
            let third = if n > 2 {
                ids[(0..n).find(|x| *x != a && *x != b).unwrap()]
            } else {
                id(9, 0)
            };
            let mut msgs = vec![
                Message::Ping(1),
                Message::Announce,
                Message::Gossip,
                Message::TurnUndead,
                Message::PingReq {
                    target: third,
                    probe_number: 1,
                },
            ];
            if menu > 0 {
                msgs.push(Message::IndirectPing {
                    origin: third,
                    probe_number: 1,
                });
                msgs.push(Message::IndirectAck {
                    target: third,
                    probe_number: 1,
                });
                msgs.push(Message::ForwardedAck {
                    origin: third,
                    probe_number: 1,
                });
                msgs.push(Message::PingReq {
                    target: ids[a],
                    probe_number: 1,
                });
                msgs.push(Message::IndirectAck {
                    target: ids[a],
                    probe_number: 1,
                });
                msgs.push(Message::Ack(1));
                msgs.push(Message::Feed);
                msgs.push(Message::Broadcast);
            }
            let mut upss: Vec<Vec<Member<Id>>> = vec![vec![]];
            let inc = suts[b].peek_inc(&FIXED, None);
            for who in [ids[b], ids[a], third] {
                for st in [Suspect, Down] {
                    upss.push(vec![Member::new(
                        who,
                        if who == ids[b] { inc } else { 0 },
                        st,
                    )]);
                }
            }
            upss.push(vec![
                Member::new(ids[b], inc, Suspect),
                Member::new(third, 0, Down),
                Member::new(ids[b], inc, Down),
            ]);
            upss.push(vec![
                Member::new(
                    Id {
                        gen: BASE,
                        ..ids[b]
                    },
                    0,
                    Alive,
                ),
                Member::new(
                    Id {
                        gen: ids[b].gen + 1,
                        ..ids[b]
                    },
                    0,
                    Suspect,
                ),
            ]);
            upss.push(vec![Member::new(
                Id {
                    gen: ids[a].gen + 1,
                    ..ids[a]
                },
                0,
                Alive,
            )]);
            if scn.crowd[b] > 0 {
                // as long a list as in a large cluster
                upss.push(
                    (0..scn.crowd[b].max(3))
                        .map(|k| {
                            let st = [Alive, Suspect, Alive, Down][k as usize % 4];
                            Member::new(id(28 + k, 0), 1, st)
                        })
                        .collect(),
                );
                if menu == 0 {
                    msgs.push(Message::Feed);
                    msgs.push(Message::Ack(1));
                    msgs.push(Message::Broadcast);
                }
            }
            for &src in &srcs {
                for &dst in &dsts {
                    for m in &msgs {
                        let pig = piggybacks(m);
                        for (k, u) in upss.iter().enumerate() {
                            if !pig && k > 0 {
                                continue;
                            }
                            if k > 0
                                && menu == 0
                                && !matches!(m, Message::Ping(_) | Message::Gossip | Message::Feed)
                            {
                                continue;
                            }
                            let i = suts[a].peek_inc(&FIXED, None);
                            v.push((b, build(&FIXED, src, i, dst, m.clone(), u, &[])));
                        }
                    }
                }
            }
        }
    }
    v
}
fn check(j: &Job, cap: usize) -> Result<Stat, (Viol, String)> {
    let mut st = Stat::default();
    let suts = j.scn.build();
    for (to, d) in injections(&j.scn, &suts, j.menu) {
        st.starts += 1;
        let net = Net {
            suts: suts.clone(),
            fl: vec![(to, d.clone())],
        };
        let mut dfs = Dfs {
            st: &mut st,
            seen: HashMap::new(),
            path: vec![],
            cap,
        };
        match dfs.go(&net) {
            Ok(l) => st.longest = st.longest.max(l as u64),
            Err(v) => {
                let mut path = dfs.path.clone();
                let k = path.len();
                if k > 24 {
                    path.drain(12..k - 12);
                }
                let t = format!(
                    "scope: cascade\nscenario: {}\ninjected: {}\n{}",
                    j.scn.describe(),
                    fmt_call(&Call::Data(d), &FIXED),
                    path.join("\n")
                );
                return Err((v, t));
            }
        }
    }
    Ok(st)
}

pub fn c18(r: &mut Report) {
    let t = r.thorough();
    r.rule = "real instances in every initial mutual-knowledge state; one injected datagram; every delivery order of the resulting exchange explored depth-first on forked instances (state memoised, a repeated state on the current path is a cycle)".into();
    let all_own = [Own::Fresh, Own::Undead, Own::Renewed, Own::Chatty, Own::Max];
    let know2: Vec<Option<(u8, State)>> = vec![
        None,
        Some((0, Alive)),
        Some((0, Suspect)),
        Some((0, Down)),
        Some((1, Alive)),
        Some((1, Down)),
    ];
    let mut jobs: Vec<Job> = Vec::new();
    let kinds = [K_NONE, K_RENEW, K_SAME, K_LOSE];
    for ka in kinds {
        for kb in kinds {
            for oa in all_own {
                for ob in all_own {
                    for &a in &know2 {
                        for &b in &know2 {
                            let notifies: &[(bool, bool)] = if t {
                                &[(true, true), (true, false), (false, true), (false, false)]
                            } else {
                                &[(true, true), (true, false)]
                            };
                            for &(na, nb) in notifies {
                                jobs.push(Job {
                                    scn: Scn {
                                        kinds: vec![ka, kb],
                                        own: vec![oa, ob],
                                        know: vec![vec![None, a], vec![b, None]],
                                        notify: vec![na, nb],
                                        crowd: vec![0, 0],
                                        tight: false,
                                        items: false,
                                    },
                                    menu: if t { 2 } else { 0 },
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    let pairs = jobs.len();
    // two instances in a large cluster
    let crowds: &[[u8; 2]] = if t {
        &[[1, 1], [2, 2], [4, 4], [5, 5], [6, 6], [9, 9], [0, 9], [9, 0], [5, 12], [60, 60]]
    } else {
        &[[2, 2], [4, 4], [6, 6], [0, 9], [9, 0], [40, 40]]
    };
    for [ka, kb] in [[K_NONE, K_NONE], [K_RENEW, K_RENEW], [K_NONE, K_RENEW]] {
        for (oa, ob) in [
            (Own::Fresh, Own::Fresh),
            (Own::Chatty, Own::Chatty),
            (Own::Chatty, Own::Fresh),
            (Own::Undead, Own::Fresh),
        ] {
            for a in [None, Some((0, Alive)), Some((0, Down))] {
                for b in [None, Some((0, Alive)), Some((0, Down))] {
                    for crowd in crowds {
                        for (tight, items) in [(false, true), (true, false)] {
                            jobs.push(Job {
                                scn: Scn {
                                    kinds: vec![ka, kb],
                                    own: vec![oa, ob],
                                    know: vec![vec![None, a], vec![b, None]],
                                    notify: vec![true, true],
                                    crowd: crowd.to_vec(),
                                    tight,
                                    items,
                                },
                                menu: if t { 2 } else { 0 },
                            });
                        }
                    }
                }
            }
        }
    }
    let crowded = jobs.len() - pairs;
    // three instances
    let k3: Vec<Option<(u8, State)>> = if t {
        vec![None, Some((0, Alive)), Some((0, Down)), Some((1, Alive))]
    } else {
        vec![None, Some((0, Alive)), Some((0, Down))]
    };
    let kinds3: Vec<[u8; 3]> = if t {
        vec![
            [K_NONE; 3],
            [K_RENEW; 3],
            [K_NONE, K_RENEW, K_RENEW],
            [K_RENEW, K_NONE, K_NONE],
            [K_SAME, K_RENEW, K_LOSE],
        ]
    } else {
        vec![[K_NONE; 3], [K_RENEW; 3], [K_NONE, K_RENEW, K_RENEW]]
    };
    let own3: Vec<[Own; 3]> = if t {
        vec![
            [Own::Fresh; 3],
            [Own::Undead, Own::Fresh, Own::Fresh],
            [Own::Chatty, Own::Chatty, Own::Fresh],
            [Own::Renewed, Own::Undead, Own::Chatty],
        ]
    } else {
        vec![[Own::Fresh; 3], [Own::Chatty, Own::Undead, Own::Fresh]]
    };
    let mut idx = vec![0usize; 6];
    loop {
        for ks in &kinds3 {
            for os in &own3 {
                let g = |x: usize| k3[idx[x]];
                jobs.push(Job {
                    scn: Scn {
                        kinds: ks.to_vec(),
                        own: os.to_vec(),
                        know: vec![
                            vec![None, g(0), g(1)],
                            vec![g(2), None, g(3)],
                            vec![g(4), g(5), None],
                        ],
                        notify: vec![true; 3],
                        crowd: vec![0; 3],
                        tight: false,
                        items: false,
                    },
                    menu: if t { 1 } else { 0 },
                });
            }
        }
        let mut k = 0;
        while k < 6 {
            idx[k] += 1;
            if idx[k] < k3.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == 6 {
            break;
        }
    }
    let triples = jobs.len() - pairs - crowded;
    if cfg!(not(foca_verif)) {
        jobs = jobs.into_iter().step_by(40).collect();
        r.exhaustive = false;
    }
    let cap = if t { 20_000 } else { 1_500 };
    let mut tot = Stat::default();
    r.jobs(
        &jobs,
        |j| check(j, cap),
        |s| {
            tot.starts += s.starts;
            tot.states += s.states;
            tot.deliveries += s.deliveries;
            tot.longest = tot.longest.max(s.longest);
            tot.widest = tot.widest.max(s.widest);
            tot.capped += s.capped;
        },
    );
    r.states += tot.states;
    r.transitions += tot.deliveries;
    r.validated += tot.starts;
    r.count("initial_knowledge_states_pairs", pairs as u64);
    r.count("initial_knowledge_states_large_cluster", crowded as u64);
    r.count("initial_knowledge_states_triples", triples as u64);
    r.count("injected_datagrams", tot.starts);
    r.count("longest_exchange", tot.longest);
    r.count("most_datagrams_caused_by_one", tot.widest);
    r.count("exchanges_beyond_state_cap", tot.capped);
    if tot.capped > 0 {
        r.exhaustive = false;
    }
    if let Some(j) = jobs.get(jobs.len() / 2) {
        r.sample(format!("scenario {}", j.scn.describe()));
    }
    r.scope_line(format!(
        "cascade: {pairs} pair states, {crowded} pair states in larger clusters, {triples} triple states, {} injected datagrams, {} states, {} deliveries, longest exchange {}, at most {} datagrams per delivery, {} capped",
        tot.starts, tot.states, tot.deliveries, tot.longest, tot.widest, tot.capped
    ));
}
