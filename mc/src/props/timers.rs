//! C11-C13: suspicion timeouts, probe rounds, timer epochs.
use super::node::*;
use crate::base::*;
use crate::explore::*;
use crate::mons2::*;
use crate::sn::*;
use foca::State::{Alive, Down, Suspect};
use foca::Timer;

const A: Id = id(1, 0);
const A1: Id = id(1, 1);
const B: Id = id(2, 0);
const C: Id = id(3, 0);

fn probe(tok: u8) -> Act {
    Act::Timer(Timer::ProbeRandomMember(tok))
}
fn ind(i: Id, tok: u8) -> Act {
    Act::Timer(Timer::SendIndirectProbe {
        probed_id: i,
        token: tok,
    })
}
/// calls after which `A` is Suspect (and B, if asked, an idle bystander)
fn suspect_a(b: bool) -> Vec<Act> {
    let mut v = vec![msg(A, MsgS::Gossip).a(), probe(0), ind(A, 0), probe(0)];
    if b {
        v.push(msg(B, MsgS::Gossip).a());
    }
    v
}

/// An instance that has been through that many connection epochs since it suspected `A`; every
/// timer it ever scheduled is still outstanding.
pub fn aged(epochs: u16) -> Sn<NoMon> {
    let mut s = Sn::base(
        &format!("{epochs}-epochs"),
        Init::new(id(0, 0), cfg()),
        NoMon,
    );
    let mut v = suspect_a(false);
    v.extend((1..=epochs).map(|g| {
        Act::ChangeId(IdS::Fix(match u8::try_from(g) {
            Ok(g) => id(0, g),
            Err(_) => idk(0, 255, K_RENEW),
        }))
    }));
    s.inits = vec![(s.inits[0].0.clone(), v)];
    s.acts = vec![Act::Gossip, msg(A, MsgS::Gossip).a()];
    s.tm = TMode::Any;
    s.m = 1;
    s.depth = 1;
    s
}

pub fn c11(r: &mut Report) {
    let t = r.thorough();
    r.rule = "one real instance; every accepted call sequence over the alphabet up to the depth; the monitor knows which identity and incarnation every outstanding timeout was raised about and in which connection epoch".into();
    // evidence about the suspect, from itself and from others
    let about = |x: Id| {
        vec![
            up(x, 0, Alive),
            up(x, 0, Suspect),
            up(x, 1, Alive),
            up(x, 1, Suspect),
            up(x, 0, Down),
            up(x, 7, Down),
        ]
    };
    for (name, notify, kind) in [("notify", true, K_RENEW), ("quiet", false, K_NONE)] {
        for dup in [false, true] {
            let mut c = cfg();
            c.notify_down_members = notify;
            let me = idk(0, 1, kind);
            let mut s = Sn::base(
                &format!("timeouts-{name}{}", if dup { "-redelivered" } else { "" }),
                Init::new(me, c),
                NoMon,
            );
            s.inits = vec![
                (s.inits[0].0.clone(), suspect_a(true)),
                (s.inits[0].0.clone(), suspect_a(false)),
            ];
            let mut acts = vec![
                msg(A, MsgS::Gossip).a(),
                msg(A, MsgS::Gossip).inc(1).a(),
                msg(A1, MsgS::Gossip).a(),
                msg(id(1, 2), MsgS::Gossip).inc(1).a(),
                msg(B, MsgS::Gossip).a(),
                msg(B, MsgS::Gossip).inc(1).a(),
                msg(IdS::Pinged, MsgS::Ack(P)).a(),
            ];
            for u in about(A) {
                acts.push(msg(B, MsgS::Gossip).ups(&[u]).a());
            }
            acts.push(msg(B, MsgS::Gossip).ups(&[up(A1, 0, Alive)]).a());
            acts.push(msg(B, MsgS::Gossip).ups(&[up(A1, 0, Down)]).a());
            acts.push(msg(B, MsgS::Gossip).ups(&[own(Inc::Own(0), Suspect)]).a());
            acts.push(msg(B, MsgS::Gossip).ups(&[own(Inc::Own(0), Down)]).a());
            acts.push(msg(A1, MsgS::Gossip).ups(&[up(B, 0, Down)]).a());
            acts.push(Act::Apply(vec![up(A, 0, Down), up(B, 0, Down)], true));
            acts.push(Act::ChangeId(IdS::OwnNext));
            acts.push(Act::Reuse);
            acts.push(Act::Leave);
            s.acts = acts;
            s.tm = if dup { TMode::AnyDup } else { TMode::Any };
            s.depth = if t { 6 } else { 5 };
            s.max_states = if t { 6_000_000 } else { 600_000 };
            with(s, SuspMon::default()).explore(r);
        }
    }
    // Down records however they come about: told by someone or handed over, to be passed on or not,
    // about members never heard of, while idle, active or defunct
    {
        let mut s = Sn::base("learned-down", Init::new(idk(0, 1, K_RENEW), cfg()), NoMon);
        let i = s.inits[0].0.clone();
        s.inits = vec![
            (i.clone(), vec![]),
            (i.clone(), suspect_a(true)),
            (i.clone(), vec![msg(A, MsgS::Gossip).a(), Act::Leave]),
        ];
        let z = id(7, 0);
        let z1 = id(7, 1);
        let mut acts = vec![
            msg(B, MsgS::Gossip).a(),
            msg(B, MsgS::Gossip).ups(&[up(z, 3, Down)]).a(),
            msg(B, MsgS::Feed).ups(&[up(z1, 0, Down), up(A, 0, Down)]).a(),
            msg(z, MsgS::Gossip).a(),
            msg(z1, MsgS::Announce).a(),
            msg(B, MsgS::TurnUndead).a(),
            Act::Reuse,
        ];
        for b in [false, true] {
            acts.push(Act::Apply(vec![up(z, 0, Down)], b));
            acts.push(Act::Apply(vec![up(z1, 2, Down)], b));
            acts.push(Act::Apply(vec![up(z, 0, Alive), up(A, 0, Suspect)], b));
            acts.push(Act::Apply(vec![up(z, 0, Suspect), up(z, 0, Down), up(B, 1, Down)], b));
            acts.push(Act::Apply(vec![own(Inc::Own(0), Down), up(A, 0, Down)], b));
            acts.push(Act::Apply(vec![up(id(0, 0), 0, Alive), up(z1, 0, Alive)], b));
        }
        s.acts = acts;
        s.tm = TMode::Any;
        s.depth = if t { 6 } else { 4 };
        s.max_states = if t { 4_000_000 } else { 300_000 };
        with(s, SuspMon::default()).explore(r);
    }
    // settings changed while the suspicion is pending
    for kind in [K_RENEW, K_NONE] {
        let mut s = Sn::base(
            &format!("settings-{}", if kind == K_RENEW { "renewable" } else { "fixed-id" }),
            Init::new(idk(0, 1, kind), cfg()),
            NoMon,
        );
        let mut eager = cfg();
        eager.notify_down_members = true;
        eager.suspect_to_down_after = ms(10);
        eager.remove_down_after = ms(20);
        eager.max_transmissions = std::num::NonZeroU8::new(1).unwrap();
        let mut lazy = cfg();
        lazy.suspect_to_down_after = ms(86_400_000);
        lazy.remove_down_after = ms(1);
        lazy.num_indirect_probes = nz(3);
        s.cfgs = vec![cfg(), eager, lazy];
        s.inits = vec![
            (s.inits[0].0.clone(), suspect_a(true)),
            (s.inits[0].0.clone(), suspect_a(true)[..3].to_vec()),
        ];
        s.acts = vec![
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
            msg(A, MsgS::Gossip).inc(1).a(),
            msg(A1, MsgS::Gossip).a(),
            msg(A, MsgS::Gossip).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(B, MsgS::Gossip).ups(&[up(A, 0, Down)]).a(),
            msg(B, MsgS::Gossip).ups(&[up(A, 1, Suspect)]).a(),
            Act::ChangeId(IdS::OwnNext),
            Act::Leave,
            Act::Reuse,
        ];
        s.tm = TMode::Any;
        s.depth = if t { 7 } else { 5 };
        s.max_states = if t { 4_000_000 } else { 300_000 };
        with(s, SuspMon::default()).explore(r);
    }
    with(aged(256), SuspMon::default()).explore(r);
    // whole life of a member in time order: suspicion, timeout, forgetting, rejoin
    for notify in [true, false] {
        let mut c = cfg();
        c.notify_down_members = notify;
        c.remove_down_after = ms(2500);
        c.periodic_announce_to_down_members = pp(1500, 1);
        let mut s = Sn::base(
            &format!("life-notify={notify}"),
            Init::new(idk(0, 1, K_RENEW), c),
            NoMon,
        );
        s.inits = vec![(
            s.inits[0].0.clone(),
            vec![msg(A, MsgS::Gossip).a(), msg(B, MsgS::Gossip).a()],
        )];
        s.acts = vec![
            msg(A, MsgS::Gossip).a(),
            msg(A, MsgS::Gossip).inc(1).a(),
            msg(A1, MsgS::Gossip).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(B, MsgS::Gossip).ups(&[up(A, 0, Suspect)]).a(),
        ];
        s.tm = TMode::Order(vec![0]);
        s.m = if t { 2 } else { 1 };
        s.depth = if t { 26 } else { 22 };
        s.max_states = if t { 6_000_000 } else { 700_000 };
        with(s, SuspMon::default()).explore(r);
    }
}

pub fn c12(r: &mut Report) {
    let t = r.thorough();
    r.rule = "one real instance; datagrams arrive at any point between timers delivered in deadline order; the monitor keeps the evidence of the current round".into();
    for (name, n_ind, m) in [
        ("rounds-k1", 1usize, 2u32),
        ("rounds-k2", 2, 1),
        ("rounds-k3", 3, 1),
    ] {
        let mut c = cfg();
        c.num_indirect_probes = nz(n_ind);
        let mut s = Sn::base(name, Init::new(idk(0, 1, K_RENEW), c), NoMon);
        let join = vec![
            msg(A, MsgS::Gossip).a(),
            msg(B, MsgS::Gossip).a(),
            msg(C, MsgS::Gossip).a(),
            probe(0),
        ];
        s.inits = vec![(s.inits[0].0.clone(), join)];
        let mut acts = vec![];
        for x in [A, B, C] {
            acts.push(msg(x, MsgS::Ack(Num::Cur)).a());
            acts.push(msg(x, MsgS::ForwardedAck(IdS::Pinged, Num::Cur)).a());
        }
        acts.push(msg(IdS::Pinged, MsgS::Ack(Num::Old)).a());
        acts.push(msg(IdS::Pinged, MsgS::Ping(Num::Cur)).a());
        acts.push(msg(IdS::Pinged, MsgS::Gossip).inc(1).a());
        acts.push(msg(IdS::Pinged, MsgS::IndirectAck(IdS::Own, Num::Cur)).a());
        acts.push(
            msg(IdS::Pinged, MsgS::Ack(Num::Cur))
                .inc(1)
                .ups(&[up(C, 0, Down)])
                .a(),
        );
        for x in [B, C] {
            acts.push(msg(x, MsgS::ForwardedAck(IdS::Pinged, Num::Old)).a());
            acts.push(
                msg(x, MsgS::Gossip)
                    .ups(&[Up(IdS::Pinged, Inc::Abs(0), Down)])
                    .a(),
            );
            acts.push(
                msg(x, MsgS::Gossip)
                    .ups(&[Up(IdS::Pinged, Inc::Abs(0), Suspect)])
                    .a(),
            );
        }
        acts.push(msg(B, MsgS::Gossip).ups(&[up(A1, 0, Alive)]).a());
        acts.push(msg(A1, MsgS::Ack(Num::Cur)).a());
        acts.push(msg(id(9, 0), MsgS::Ack(Num::Cur)).a());
        acts.push(Act::ChangeId(IdS::OwnNext));
        s.acts = acts;
        s.tm = TMode::Order(vec![0]);
        s.m = m;
        s.depth = if t { 11 } else { 8 };
        s.max_states = if t { 8_000_000 } else { 700_000 };
        with(s, ProbeMon::default()).explore(r);
    }
    // the probed identity is forgotten, superseded or comes back during its round
    {
        let mut c = cfg();
        c.remove_down_after = ms(100);
        let mut s = Sn::base("superseded", Init::new(idk(0, 1, K_RENEW), c), NoMon);
        s.inits = [A, A1]
            .iter()
            .map(|x| {
                (
                    s.inits[0].0.clone(),
                    vec![
                        msg(*x, MsgS::Gossip).inc(1).a(),
                        probe(0),
                        msg(B, MsgS::Gossip).a(),
                    ],
                )
            })
            .collect();
        let mut acts = vec![];
        for x in [A, A1] {
            acts.push(msg(x, MsgS::Gossip).a());
            acts.push(msg(x, MsgS::Gossip).inc(1).a());
            acts.push(msg(x, MsgS::Ack(Num::Cur)).a());
            acts.push(msg(B, MsgS::Gossip).ups(&[up(x, 0, Down)]).a());
        }
        acts.push(
            msg(B, MsgS::Gossip)
                .ups(&[Up(IdS::Pinged, Inc::Abs(1), Suspect)])
                .a(),
        );
        s.acts = acts;
        s.tm = TMode::Order(vec![0]);
        s.depth = if t { 13 } else { 11 };
        s.max_states = if t { 6_000_000 } else { 300_000 };
        with(s, ProbeMon::default()).explore(r);
    }
    // wrap-around of the probe number
    {
        let mut s = Sn::base("wrap", Init::new(idk(0, 1, K_RENEW), cfg()), NoMon);
        let mut pre = vec![msg(A, MsgS::Gossip).a(), msg(B, MsgS::Gossip).a()];
        for _ in 0..(if cfg!(foca_verif) { 254 } else { 20 }) {
            pre.push(probe(0));
            pre.push(ind(A, 0));
            pre.push(ind(B, 0));
            pre.push(msg(IdS::Pinged, MsgS::Ack(Num::Cur)).a());
        }
        s.inits = vec![(s.inits[0].0.clone(), pre)];
        s.acts = vec![
            msg(A, MsgS::Ack(Num::Cur)).a(),
            msg(B, MsgS::Ack(Num::Cur)).a(),
            msg(A, MsgS::Ack(Num::Old)).a(),
            msg(B, MsgS::Ack(Num::Old)).a(),
            msg(A, MsgS::Ack(Num::Abs(0))).a(),
            msg(B, MsgS::ForwardedAck(IdS::Fix(A), Num::Cur)).a(),
            msg(A, MsgS::ForwardedAck(IdS::Fix(B), Num::Cur)).a(),
            msg(A, MsgS::ForwardedAck(IdS::Fix(B), Num::Old)).a(),
            msg(A, MsgS::Gossip).inc(1).a(),
        ];
        s.tm = TMode::Order(vec![0]);
        s.depth = if t { 24 } else { 18 };
        s.max_states = if t { 3_000_000 } else { 200_000 };
        with(s, ProbeMon::default()).explore(r);
    }
    // some datagrams can't be encoded for a while (indirect probe requests, then pings as well)
    {
        let mut c = cfg();
        c.num_indirect_probes = nz(2);
        c.periodic_announce = pp(1300, 3);
        let mut s = Sn::base("unencodable", Init::new(idk(0, 1, K_RENEW), c.clone()), NoMon);
        s.inits[0].1 = vec![
            msg(A, MsgS::Gossip).a(),
            msg(B, MsgS::Gossip).a(),
            msg(C, MsgS::Gossip).a(),
            msg(id(4, 0), MsgS::Gossip).a(),
            probe(0),
        ];
        s.cfgs = vec![c.clone()];
        for z in [1, 10] {
            let mut c = c.clone();
            c.max_packet_size = nz(z);
            s.cfgs.push(c);
        }
        s.acts = vec![
            msg(IdS::Pinged, MsgS::Ack(Num::Cur)).a(),
            msg(IdS::Pinged, MsgS::Gossip).inc(1).a(),
            msg(B, MsgS::Gossip).a(),
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
        ];
        s.tm = TMode::Order(vec![0]);
        s.depth = if t { 18 } else { 15 };
        s.max_states = if t { 3_000_000 } else { 200_000 };
        with(s, ProbeMon::default()).explore(r);
    }
    // fan-out, durations and room changed in the middle of rounds
    {
        let mut c = cfg();
        c.num_indirect_probes = nz(2);
        let mut s = Sn::base("settings", Init::new(idk(0, 1, K_RENEW), c.clone()), NoMon);
        s.inits[0].1 = vec![
            msg(A, MsgS::Gossip).a(),
            msg(B, MsgS::Gossip).a(),
            msg(C, MsgS::Gossip).a(),
            msg(id(4, 0), MsgS::Gossip).a(),
            probe(0),
        ];
        let mut one = c.clone();
        one.num_indirect_probes = nz(1);
        one.suspect_to_down_after = ms(1);
        one.notify_down_members = true;
        let mut many = c.clone();
        many.num_indirect_probes = nz(9);
        // (relaying needs no room beyond the header)
        many.max_packet_size = nz(24);
        s.cfgs = vec![c, one, many];
        s.acts = vec![
            msg(IdS::Pinged, MsgS::Ack(Num::Cur)).a(),
            msg(B, MsgS::ForwardedAck(IdS::Pinged, Num::Cur)).a(),
            msg(C, MsgS::ForwardedAck(IdS::Pinged, Num::Cur)).a(),
            msg(C, MsgS::ForwardedAck(IdS::Pinged, Num::Old)).a(),
            msg(IdS::Pinged, MsgS::Gossip).inc(1).a(),
            msg(B, MsgS::PingReq(IdS::Fix(C), Num::Abs(4))).a(),
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
        ];
        s.tm = TMode::Order(vec![0]);
        s.depth = if t { 13 } else { 10 };
        s.max_states = if t { 4_000_000 } else { 300_000 };
        with(s, ProbeMon::default()).explore(r);
    }
    // a crowd to choose the relays from, more or fewer of them wanted than there are
    for (name, k) in [("crowd-k4", 4usize), ("crowd-k9", 9), ("crowd-k10", 10), ("crowd-k300", 300)] {
        let mut c = cfg();
        c.num_indirect_probes = nz(k);
        let mut s = Sn::base(name, Init::new(idk(0, 1, K_RENEW), c), NoMon);
        let recs: Vec<Up> = (1..=13u8)
            .map(|a| up(id(a, 0), 0, [Alive, Suspect, Alive, Down][a as usize % 4]))
            .collect();
        s.inits = vec![(s.inits[0].0.clone(), vec![Act::Apply(recs, false), probe(0)])];
        s.acts = vec![
            msg(IdS::Pinged, MsgS::Ack(Num::Cur)).a(),
            msg(IdS::Pinged, MsgS::ForwardedAck(IdS::Pinged, Num::Cur)).a(),
            msg(id(1, 0), MsgS::ForwardedAck(IdS::Pinged, Num::Cur)).a(),
            msg(id(12, 0), MsgS::ForwardedAck(IdS::Pinged, Num::Cur)).a(),
            msg(id(13, 0), MsgS::ForwardedAck(IdS::Pinged, Num::Cur)).a(),
            msg(id(9, 0), MsgS::Ack(Num::Cur)).a(),
            msg(id(3, 0), MsgS::ForwardedAck(IdS::Pinged, Num::Cur)).a(),
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[Up(IdS::Pinged, Inc::Abs(0), Down)])
                .a(),
            Act::Apply((1..=9).map(|a| up(id(a, 0), 0, Down)).collect(), false),
        ];
        s.tm = TMode::Order(vec![0]);
        s.m = 2;
        s.depth = if t { 8 } else { 5 };
        s.max_states = if t { 1_000_000 } else { 40_000 };
        with(s, ProbeMon::default()).explore(r);
    }
    // answering and relaying, for every probe number
    {
        let mut c = cfg();
        c.notify_down_members = true;
        let mut s = Sn::base("answers", Init::new(idk(0, 1, K_RENEW), c), NoMon);
        s.inits = vec![
            (s.inits[0].0.clone(), vec![]),
            (
                s.inits[0].0.clone(),
                vec![msg(A, MsgS::Gossip).a(), msg(B, MsgS::Gossip).a()],
            ),
            (
                s.inits[0].0.clone(),
                vec![msg(A, MsgS::Gossip).a(), Act::Leave],
            ),
            (
                s.inits[0].0.clone(),
                vec![msg(A, MsgS::Gossip).ups(&[up(B, 0, Down)]).a()],
            ),
            (
                s.inits[0].0.clone(),
                vec![msg(A, MsgS::Gossip).a(), Act::ChangeId(IdS::OwnNext)],
            ),
        ];
        let nums: Vec<u8> = (0..=255).collect();
        let mut acts = vec![];
        for n in nums {
            for x in [A, B] {
                acts.push(msg(x, MsgS::Ping(Num::Abs(n))).a());
                for y in [
                    IdS::Fix(B),
                    IdS::Fix(A),
                    IdS::Fix(C),
                    IdS::Own,
                    IdS::OwnNext,
                ] {
                    acts.push(msg(x, MsgS::PingReq(y, Num::Abs(n))).a());
                    acts.push(msg(x, MsgS::IndirectPing(y, Num::Abs(n))).a());
                    acts.push(msg(x, MsgS::IndirectAck(y, Num::Abs(n))).a());
                    acts.push(msg(x, MsgS::ForwardedAck(y, Num::Abs(n))).a());
                }
            }
        }
        s.acts = acts;
        s.tm = TMode::Off;
        s.depth = 1;
        with(s, ProbeMon::default()).explore(r);
    }
    {
        let mut c = cfg();
        c.notify_down_members = true;
        let mut s = Sn::base("answers-deep", Init::new(idk(0, 1, K_RENEW), c), NoMon);
        let mut acts = vec![];
        for x in [A, B] {
            acts.push(msg(x, MsgS::Ping(Num::Abs(4))).a());
            acts.push(msg(x, MsgS::Ping(Num::Abs(4))).ups(&[up(A, 0, Down)]).a());
            acts.push(
                msg(x, MsgS::Ping(Num::Abs(5)))
                    .ups(&[own(Inc::Own(0), Suspect)])
                    .a(),
            );
            acts.push(
                msg(x, MsgS::Ping(Num::Abs(5)))
                    .items(&[&[1, 1, 1], &[0xEE, 1]])
                    .a(),
            );
            acts.push(
                msg(x, MsgS::Ping(Num::Abs(6)))
                    .ups(&[up(C, 0, Alive)])
                    .tail(&[0, 9, 1])
                    .a(),
            );
            acts.push(msg(x, MsgS::TurnUndead).a());
            for y in [IdS::Fix(B), IdS::Fix(A), IdS::Own, IdS::OwnPrev] {
                acts.push(msg(x, MsgS::PingReq(y, Num::Abs(4))).a());
                acts.push(msg(x, MsgS::IndirectPing(y, Num::Abs(4))).a());
                acts.push(msg(x, MsgS::IndirectAck(y, Num::Abs(4))).a());
            }
        }
        acts.push(Act::Leave);
        acts.push(Act::Reuse);
        s.acts = acts;
        s.tm = TMode::Any;
        s.depth = if t { 5 } else { 4 };
        s.max_states = if t { 3_000_000 } else { 300_000 };
        with(s, ProbeMon::default()).explore(r);
    }
}

pub fn c13(r: &mut Report) {
    let t = r.thorough();
    r.rule = "one real instance; every timer it schedules is delivered exactly once (in deadline order with lateness, or in any order); the monitor counts outstanding timers per connection epoch".into();
    let full = || {
        let mut c = cfg();
        c.periodic_announce = pp(1300, 1);
        c.periodic_gossip = pp(700, 1);
        c.periodic_announce_to_down_members = pp(1700, 1);
        c.remove_down_after = ms(5000);
        c
    };
    let acts = || {
        vec![
            msg(A, MsgS::Gossip).a(),
            msg(B, MsgS::Gossip).ups(&[up(A, 0, Down)]).a(),
            msg(A, MsgS::Gossip)
                .ups(&[up(A, 0, Down), up(B, 0, Down)])
                .a(),
            msg(A1, MsgS::Ping(Num::Abs(3))).a(),
            msg(A, MsgS::TurnUndead).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(A1, MsgS::Gossip)
                .ups(&[own(Inc::Own(0), Down), up(A1, 0, Down)])
                .a(),
            Act::Apply(
                vec![
                    up(A, 0, Down),
                    up(A1, 0, Down),
                    up(B, 0, Down),
                    up(id(1, 2), 0, Alive),
                ],
                true,
            ),
            Act::Apply(
                vec![up(A1, 0, Down), up(id(1, 2), 0, Down), up(B, 0, Down)],
                false,
            ),
            // the last member and the instance itself, at once
            msg(A, MsgS::Gossip)
                .ups(&[up(A, 0, Down), up(B, 0, Down), own(Inc::Own(0), Down)])
                .a(),
            Act::Apply(
                vec![up(A1, 0, Down), up(B, 0, Down), own(Inc::Own(0), Down)],
                true,
            ),
            msg(A, MsgS::Gossip)
                .ups(&[up(A, 0, Down), own(Inc::Abs(MAX), Suspect)])
                .a(),
            Act::Leave,
            Act::Reuse,
            Act::ChangeId(IdS::OwnNext),
        ]
    };
    for (name, kind, lates) in [
        ("ordered-renewable", K_RENEW, vec![0u64, 900]),
        ("ordered-fixed", K_NONE, vec![0, 5000]),
    ] {
        let mut s = Sn::base(name, Init::new(idk(0, 1, kind), full()), NoMon);
        s.inits = vec![
            (s.inits[0].0.clone(), vec![]),
            (
                s.inits[0].0.clone(),
                vec![msg(A, MsgS::Gossip).a(), probe(0)],
            ),
        ];
        s.acts = acts();
        s.tm = TMode::Order(lates);
        s.depth = if t { 9 } else { 6 };
        s.max_states = if t { 6_000_000 } else { 400_000 };
        with(s, EpochMon::new(true)).explore(r);
    }
    {
        // long runs, few interruptions
        let mut s = Sn::base("ordered-long", Init::new(idk(0, 1, K_RENEW), full()), NoMon);
        s.inits = vec![(
            s.inits[0].0.clone(),
            vec![msg(A, MsgS::Gossip).a(), msg(B, MsgS::Gossip).a()],
        )];
        s.acts = vec![
            msg(A, MsgS::TurnUndead).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(A1, MsgS::Gossip).a(),
        ];
        s.tm = TMode::Order(vec![0, 350, 2500]);
        s.depth = if t { 16 } else { 12 };
        s.max_states = if t { 6_000_000 } else { 800_000 };
        with(s, EpochMon::new(true)).explore(r);
    }
    for (ordered, lean) in [(true, false), (false, false), (true, true)] {
        let full = || {
            let mut c = full();
            if lean {
                c.periodic_announce = None;
                c.periodic_gossip = None;
                c.periodic_announce_to_down_members = None;
            }
            c
        };
        // datagrams that don't fit: max_packet_size becomes too small for any or some headers
        // and recovers
        let mut s = Sn::base(
            match (ordered, lean) {
                (true, true) => "unencodable-probes",
                (true, false) => "unencodable-ordered",
                _ => "unencodable-any",
            },
            Init::new(idk(0, 1, K_RENEW), full()),
            NoMon,
        );
        s.inits[0].0.codec = VAR;
        s.inits.push((
            s.inits[0].0.clone(),
            vec![msg(A, MsgS::Gossip).a(), msg(B, MsgS::Gossip).a(), probe(0)],
        ));
        let mut cf = vec![full()];
        for z in [1, 9, 12] {
            let mut c = full();
            c.max_packet_size = nz(z);
            cf.push(c);
        }
        s.cfgs = cf;
        s.acts = vec![
            msg(A, MsgS::Gossip).a(),
            msg(A, MsgS::Gossip).ups(&[up(A, 0, Down)]).a(),
            msg(A1, MsgS::Gossip).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            Act::ChangeId(IdS::OwnNext),
            Act::Gossip,
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
            Act::SetCfg(3),
        ];
        s.tm = if ordered { TMode::Order(vec![0]) } else { TMode::Any };
        s.depth = if t { 10 } else { 7 };
        s.max_states = if t { 4_000_000 } else { 300_000 };
        let mut m = EpochMon::new(ordered);
        m.enc = true;
        with(s, m).explore(r);
    }
    for (name, kind) in [
        ("any-order-renewable", K_RENEW),
        ("any-order-fixed", K_NONE),
    ] {
        let mut s = Sn::base(name, Init::new(idk(0, 1, kind), full()), NoMon);
        s.inits = vec![
            (s.inits[0].0.clone(), vec![]),
            (
                s.inits[0].0.clone(),
                vec![msg(A, MsgS::Gossip).a(), probe(0)],
            ),
        ];
        s.acts = acts();
        s.tm = TMode::Any;
        s.depth = if t { 7 } else { 5 };
        s.max_states = if t { 6_000_000 } else { 400_000 };
        with(s, EpochMon::new(false)).explore(r);
    }
    // (256 and more are beyond the width of the token)
    with(aged(255), EpochMon::new(false)).explore(r);
    {
        // every number of members, however many of them aren't active
        let mut s = Sn::base("crowds", Init::new(idk(0, 1, K_RENEW), full()), NoMon);
        let init = s.inits[0].0.clone();
        s.inits.clear();
        for n in (1..=12u8).chain([24, 60]) {
            let down: &[fn(u8) -> bool] = &[|_| false, |a| a == 1, |a| a > 1, |a| a % 2 == 0];
            for d in down {
                let recs: Vec<Up> = (1..=n)
                    .map(|a| {
                        let st = if d(a) {
                            Down
                        } else if a % 5 == 3 {
                            Suspect
                        } else {
                            Alive
                        };
                        up(id(a, 0), 0, st)
                    })
                    .collect();
                let mut i = init.clone();
                i.cfg.remove_down_after = ms(60_000);
                for wanted in [1, 5] {
                    i.cfg.periodic_announce = pp(1300, wanted);
                    i.cfg.periodic_gossip = pp(700, wanted);
                    i.cfg.periodic_announce_to_down_members = pp(1700, wanted);
                    s.inits.push((i.clone(), vec![Act::Apply(recs.clone(), true)]));
                }
            }
        }
        s.acts = vec![
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(id(100, 0), MsgS::Announce).a(),
            msg(A1, MsgS::Gossip).a(),
            msg(id(2, 0), MsgS::Gossip).ups(&[up(A, 0, Down)]).a(),
            Act::Apply((1..=4).map(|a| up(id(a, 0), 0, Down)).collect(), false),
            Act::Apply((1..=4).map(|a| up(id(a, 1), 0, Alive)).collect(), false),
        ];
        s.tm = TMode::Order(vec![0]);
        s.m = 1;
        s.depth = if t { 9 } else { 6 };
        s.max_states = if t { 4_000_000 } else { 300_000 };
        with(s, EpochMon::new(true)).explore(r);
    }
    {
        // settings toggled at runtime
        let mut s = Sn::base("set-config", Init::new(idk(0, 1, K_RENEW), full()), NoMon);
        let mut cf = vec![full()];
        for k in 0..3 {
            let mut c = full();
            match k {
                0 => c.periodic_announce = None,
                1 => c.periodic_gossip = None,
                _ => c.periodic_announce_to_down_members = None,
            }
            cf.push(c);
        }
        let mut c = full();
        c.periodic_announce = pp(100, 3);
        c.periodic_gossip = None;
        c.periodic_announce_to_down_members = pp(200, 2);
        cf.push(c);
        s.cfgs = cf;
        s.acts = vec![
            msg(A, MsgS::Gossip).a(),
            msg(A, MsgS::Gossip).ups(&[up(A, 0, Down)]).a(),
            msg(A1, MsgS::Gossip).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            Act::ChangeId(IdS::OwnNext),
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
            Act::SetCfg(3),
            Act::SetCfg(4),
        ];
        s.tm = TMode::Order(vec![0]);
        s.depth = if t { 10 } else { 8 };
        s.max_states = if t { 6_000_000 } else { 400_000 };
        with(s, EpochMon::new(true)).explore(r);
    }
}
