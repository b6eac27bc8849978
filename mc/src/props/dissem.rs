//! C15-C17: update dissemination, custom broadcasts, rejected input and determinism.
use super::node::*;
use crate::base::*;
use crate::explore::*;
use crate::mons2::*;
use crate::sn::*;
use foca::Config;
use foca::State::{Alive, Down, Suspect};
use std::num::NonZeroU8;

const A: Id = id(1, 0);
const A1: Id = id(1, 1);
const B: Id = id(2, 0);
const B1: Id = id(2, 1);
const C: Id = id(3, 0);
const D: Id = id(4, 0);

fn tx(c: &mut Config, n: u8) {
    c.max_transmissions = NonZeroU8::new(n).unwrap();
}

pub fn c15(r: &mut Report) {
    let t = r.thorough();
    r.rule = "one real instance; every accepted change is entered in an independent ledger (latest update per address, transmissions left) against which every piggybacking datagram is checked".into();
    let acts = |small: bool| {
        let mut v = vec![
            Act::Apply(vec![up(A, 0, Alive)], true),
            Act::Apply(vec![up(B, 0, Alive)], true),
            Act::Apply(vec![up(C, 0, Suspect)], true),
            Act::Apply(
                vec![up(D, 0, Alive), up(D, 1, Suspect), up(D, 0, Down)],
                true,
            ),
            Act::Apply(vec![up(A, 1, Suspect), up(B, 0, Down)], true),
            Act::Apply(vec![up(A1, 0, Alive)], true),
            Act::Apply(vec![up(A, 2, Alive), up(B, 2, Alive)], false),
            Act::Apply(vec![up(A1, 1, Suspect), up(B, 0, Down)], false),
            Act::Apply(vec![up(B1, 0, Alive), up(C, 0, Down), up(D, 3, Alive)], false),
            Act::Apply(vec![up(id(0, 9), 2, Alive)], true),
            msg(A, MsgS::Ping(Num::Abs(7))).a(),
            msg(A, MsgS::Announce).a(),
            msg(B, MsgS::TurnUndead).a(),
            Act::Announce(C),
            Act::Gossip,
            Act::Broadcast,
            Act::AddB(vec![1, 1]),
            Act::Leave,
            Act::ChangeId(IdS::OwnNext),
            Act::Reuse,
        ];
        if !small {
            v.push(msg(A, MsgS::PingReq(IdS::Fix(B), Num::Abs(1))).a());
            v.push(
                msg(A, MsgS::Gossip)
                    .ups(&[up(B, 1, Suspect), up(C, 0, Alive)])
                    .a(),
            );
            v.push(
                msg(B, MsgS::Feed)
                    .ups(&[up(A, 0, Alive), up(C, 0, Alive), up(D, 0, Alive)])
                    .a(),
            );
            v.push(msg(A, MsgS::Gossip).ups(&[own(Inc::Own(0), Suspect)]).a());
        }
        v
    };
    // header 9 bytes (10 with a probe number), 2 for the count, 6 per member: how much room there is
    let scopes: Vec<(usize, u8, McCodec)> = vec![
        (14, 1, FIXED),
        (17, 1, FIXED),
        (18, 2, FIXED),
        (23, 2, FIXED),
        (24, 3, FIXED),
        (30, 2, FIXED),
        (
            35,
            3,
            McCodec {
                enc: Enc::Fixed,
                dirty: true,
            },
        ),
        (1400, 1, FIXED),
        (1400, 2, FIXED),
        (1400, 3, FIXED),
        (28, 2, VAR),
        (33, 2, VAR),
        (40, 3, VAR),
        (1400, 2, VAR),
    ];
    for (size, n, codec) in scopes {
        let mut c = cfg();
        c.max_packet_size = nz(size);
        c.notify_down_members = n % 2 == 0;
        c.num_indirect_probes = nz(if size > 1000 { 1 } else { 2 });
        tx(&mut c, n);
        let mut init = Init::new(idk(0, 1, K_RENEW), c);
        init.codec = codec;
        let name = format!("size{size}-tx{n}-{:?}", codec.enc);
        let mut s = Sn::base(&name, init, NoMon);
        let i = s.inits[0].0.clone();
        s.inits = vec![
            (i.clone(), vec![]),
            (
                i.clone(),
                vec![Act::Apply(vec![up(A, 0, Alive), up(B, 0, Alive)], false)],
            ),
            (
                i,
                vec![
                    Act::Apply(
                        vec![
                            up(A, 0, Alive),
                            up(B, 0, Alive),
                            up(C, 0, Alive),
                            up(D, 0, Alive),
                        ],
                        true,
                    ),
                    Act::Gossip,
                ],
            ),
        ];
        s.acts = acts(size < 60);
        s.tm = TMode::Any;
        s.depth = if t { 6 } else { 4 };
        s.max_states = if t { 4_000_000 } else { 130_000 };
        with(s, BacklogMon::default()).explore(r);
    }
    // drain: long runs of transmissions
    for n in [1u8, 2, 3, 5] {
        for size in [24usize, 30, 1400] {
            let mut c = cfg();
            c.max_packet_size = nz(size);
            c.num_indirect_probes = nz(1);
            tx(&mut c, n);
            let mut s = Sn::base(
                &format!("drain-tx{n}-size{size}"),
                Init::new(idk(0, 1, K_RENEW), c),
                NoMon,
            );
            let i = s.inits[0].0.clone();
            s.inits = vec![(
                i,
                vec![Act::Apply(
                    vec![up(A, 0, Alive), up(B, 0, Alive), up(C, 0, Alive)],
                    true,
                )],
            )];
            s.acts = vec![
                Act::Gossip,
                msg(A, MsgS::Ping(Num::Abs(7))).a(),
                msg(A, MsgS::Announce).a(),
                Act::Apply(vec![up(D, 0, Alive)], true),
                Act::Apply(vec![up(D, 0, Down)], true),
                Act::Apply(vec![up(C, 0, Suspect)], true),
            ];
            s.tm = TMode::Off;
            s.depth = if t { 14 } else { 9 };
            s.max_states = if t { 3_000_000 } else { 200_000 };
            with(s, BacklogMon::default()).explore(r);
        }
    }
    // the largest limit: 255 transmissions, one by one
    {
        let mut c = cfg();
        c.num_indirect_probes = nz(1);
        tx(&mut c, 255);
        let mut s = Sn::base("tx255", Init::new(idk(0, 1, K_RENEW), c), NoMon);
        let i = s.inits[0].0.clone();
        let mut pre = vec![Act::Apply(vec![up(A, 0, Alive)], true)];
        for _ in 0..(if cfg!(foca_verif) { 252 } else { 20 }) {
            pre.push(Act::Gossip);
        }
        s.inits = vec![(i, pre)];
        s.acts = vec![
            Act::Gossip,
            msg(A, MsgS::Ping(Num::Abs(7))).a(),
            Act::Apply(vec![up(B, 0, Alive)], true),
            Act::Apply(vec![up(A, 0, Suspect)], true),
        ];
        s.tm = TMode::Off;
        s.depth = if t { 12 } else { 8 };
        with(s, BacklogMon::default()).explore(r);
    }
    // limits changed while updates are pending
    {
        let mut cs = Vec::new();
        for (n, size) in [(2u8, 1400usize), (1, 1400), (4, 1400), (2, 24), (3, 18)] {
            let mut c = cfg();
            c.num_indirect_probes = nz(1);
            c.max_packet_size = nz(size);
            tx(&mut c, n);
            cs.push(c);
        }
        let mut s = Sn::base(
            "set-config",
            Init::new(idk(0, 1, K_RENEW), cs[0].clone()),
            NoMon,
        );
        s.cfgs = cs;
        s.inits = vec![(
            s.inits[0].0.clone(),
            vec![Act::Apply(vec![up(A, 0, Alive)], true)],
        )];
        s.acts = vec![
            Act::Gossip,
            Act::Apply(vec![up(B, 0, Alive)], true),
            Act::Apply(vec![up(A, 0, Suspect)], true),
            Act::Apply(vec![up(C, 0, Alive)], true),
            msg(A, MsgS::Announce).a(),
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
            Act::SetCfg(3),
            Act::SetCfg(4),
        ];
        s.tm = TMode::Off;
        s.depth = if t { 9 } else { 6 };
        s.max_states = if t { 3_000_000 } else { 200_000 };
        with(s, BacklogMon::default()).explore(r);
    }
    // driven by timers only: probes, periodic gossip, suspicion, forgetting
    for size in [24usize, 1400] {
        let mut c = cfg();
        c.notify_down_members = true;
        c.max_packet_size = nz(size);
        c.periodic_announce = pp(1300, 1);
        c.periodic_gossip = pp(700, 2);
        c.periodic_announce_to_down_members = pp(1700, 2);
        c.remove_down_after = ms(4000);
        tx(&mut c, 3);
        let mut s = Sn::base(
            &format!("timers-size{size}"),
            Init::new(idk(0, 1, K_RENEW), c),
            NoMon,
        );
        s.inits = vec![(
            s.inits[0].0.clone(),
            vec![Act::Apply(
                vec![up(A, 0, Alive), up(B, 0, Alive), up(C, 0, Alive)],
                true,
            )],
        )];
        s.acts = vec![
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(IdS::Pinged, MsgS::Announce).inc(1).a(),
            Act::Apply(vec![up(A, 1, Suspect)], true),
        ];
        s.tm = TMode::Order(vec![0]);
        s.depth = if t { 18 } else { 12 };
        s.max_states = if t { 4_000_000 } else { 200_000 };
        with(s, BacklogMon::default()).explore(r);
    }
    // crowds: far more updates pending than fit in one datagram, or so many that fit
    for (count, size, n, codec) in [
        (12u8, 1400usize, 2u8, FIXED),
        (12, 60, 2, VAR),
        (40, 1400, 3, VAR),
        (40, 200, 1, FIXED),
        (250, 1400, 2, FIXED),
        (250, 1400, 2, VAR),
        (250, 65_535, 2, VAR),
    ] {
        let mut c = cfg();
        c.max_packet_size = nz(size);
        c.num_indirect_probes = nz(3);
        c.periodic_gossip = pp(700, 2);
        tx(&mut c, n);
        let mut init = Init::new(idk(0, 1, K_RENEW), c);
        init.codec = codec;
        let mut s = Sn::base(&format!("crowd{count}-size{size}-tx{n}-{:?}", codec.enc), init, NoMon);
        let crowd = |inc: u16, s: foca::State, from: u8| {
            Act::Apply((from..=count).map(|a| up(id(a, a % 3), inc + (a as u16 % 5) * 90, s)).collect(), true)
        };
        s.inits = vec![
            (s.inits[0].0.clone(), vec![crowd(0, Alive, 1)]),
            (
                s.inits[0].0.clone(),
                vec![crowd(0, Alive, 1), Act::Gossip, crowd(1, Suspect, 1 + count / 2)],
            ),
        ];
        s.acts = vec![
            Act::Gossip,
            msg(id(4, 1), MsgS::Ping(Num::Abs(7))).a(),
            msg(id(4, 1), MsgS::Announce).a(),
            msg(id(4, 1), MsgS::PingReq(IdS::Fix(id(7, 1)), Num::Abs(7))).a(),
            msg(id(4, 1), MsgS::Gossip)
                .ups(&[up(id(5, 2), 9, Down), up(id(6, 0), 9, Suspect), up(id(251, 0), 0, Alive)])
                .a(),
            crowd(500, Suspect, count / 3),
            Act::Apply(vec![up(id(2, 2), 0, Down), up(id(252, 0), 3, Suspect)], true),
            Act::Leave,
        ];
        s.tm = TMode::Any;
        s.m = 1;
        s.depth = if t { 5 } else { 3 };
        s.max_states = if t { 400_000 } else { 20_000 };
        with(s, BacklogMon::default()).explore(r);
    }
}

pub fn c16(r: &mut Report) {
    let t = r.thorough();
    r.rule = "one real instance with an instrumented handler; every item it accepts is entered in an independent ledger against which every datagram is checked; what the handler is given is compared with what was sent".into();
    let big = |k: u8, v: u8, n: usize| {
        let mut x = vec![k, v];
        x.resize(n, 7);
        x
    };
    let acts = |t: bool| {
        let mut v = vec![
            Act::AddB(vec![1, 1]),
            Act::AddB(vec![1, 2, 9]),
            Act::AddB(vec![2, 1, 9, 9]),
            Act::AddB(vec![0, 1]),
            Act::AddB(big(3, 1, 12)),
            Act::AddB(vec![0xEE]),
            msg(A, MsgS::Gossip).items(&[&[1, 3]]).a(),
            msg(A, MsgS::Ping(Num::Abs(7)))
                .items(&[&[2, 2, 2], &[1, 1], &[0, 2, 0]])
                .a(),
            msg(B, MsgS::Broadcast).items(&[&[4, 1], &[4, 1]]).a(),
            msg(B, MsgS::Broadcast)
                .items(&[&[5, 1], &[0xEE, 0], &[5, 2]])
                .a(),
            msg(A, MsgS::Announce).a(),
            Act::Gossip,
            Act::Broadcast,
            Act::Announce(C),
        ];
        if t {
            v.push(
                msg(A, MsgS::Gossip)
                    .ups(&[up(C, 0, Alive)])
                    .items(&[&[6, 1]])
                    .a(),
            );
            v.push(
                msg(B, MsgS::PingReq(IdS::Fix(C), Num::Abs(1)))
                    .items(&[&[6, 2]])
                    .a(),
            );
            v.push(msg(B, MsgS::TurnUndead).a());
            v.push(
                msg(A, MsgS::Gossip)
                    .ups(&[up(B, 0, Down)])
                    .items(&[&[6, 1]])
                    .a(),
            );
            v.push(msg(id(9, 0), MsgS::Gossip).to(C).items(&[&[7, 1]]).a());
            v.push(
                msg(A, MsgS::Broadcast)
                    .items(&[&[7, 1]])
                    .tail(&[0, 5, 1])
                    .a(),
            );
            v.push(Act::Leave);
            v.push(Act::ChangeId(IdS::OwnNext));
        }
        v
    };
    let mut n = 0;
    for inval in [Inval::Key, Inval::Never, Inval::Zero, Inval::Older] {
        for always in [false, true] {
            for (size, mtx, k) in [(1400usize, 2u8, 1usize), (27, 1, 2), (27, 3, 3)] {
                n += 1;
                let mut c = cfg();
                c.max_packet_size = nz(size);
                c.num_indirect_probes = nz(k);
                tx(&mut c, mtx);
                let mut init = Init::new(idk(0, 1, K_RENEW), c);
                init.handler = McHandler::new(inval);
                init.handler.always = always;
                init.handler.deny = [0, 1 << 2, 1 << 1, 0xFF][n % 4];
                let mut s = Sn::base(
                    &format!(
                        "{inval:?}-always={always}-size{size}-tx{mtx}-deny{:x}",
                        init.handler.deny
                    ),
                    init,
                    NoMon,
                );
                let i = s.inits[0].0.clone();
                s.inits = vec![(
                    i.clone(),
                    vec![Act::Apply(
                        vec![up(A, 0, Alive), up(B, 0, Alive), up(C, 0, Alive)],
                        false,
                    )],
                )];
                s.acts = acts(true);
                s.tm = TMode::Any;
                s.m = if k < 3 { 2 } else { 1 };
                s.depth = if t { 5 } else { 4 };
                s.max_states = if t { 2_500_000 } else { 60_000 };
                with(s, CustomMon::default()).explore(r);
            }
        }
    }
    // every message kind sent, pending items, members and defunct states
    for deny in [0u32, 1 << 1, 1 << 2 | 1 << 3] {
        let mut c = cfg();
        c.notify_down_members = true;
        c.periodic_announce = pp(1300, 1);
        c.periodic_gossip = pp(700, 1);
        c.periodic_announce_to_down_members = pp(1700, 2);
        c.num_indirect_probes = nz(2);
        tx(&mut c, 2);
        let mut init = Init::new(idk(0, 1, K_RENEW), c);
        init.handler.deny = deny;
        let mut s = Sn::base(&format!("kinds-deny{deny:x}"), init, NoMon);
        s.inits = vec![(
            s.inits[0].0.clone(),
            vec![
                Act::Apply(vec![up(A, 0, Alive), up(B, 0, Alive), up(D, 0, Down)], true),
                Act::AddB(vec![1, 1]),
            ],
        )];
        s.acts = vec![
            Act::AddB(vec![1, 2, 9]),
            Act::AddB(vec![2, 1]),
            Act::Broadcast,
            msg(A, MsgS::Ping(Num::Abs(7))).a(),
            msg(B, MsgS::Announce).a(),
            msg(D, MsgS::Ping(Num::Abs(1))).items(&[&[6, 2]]).a(),
            msg(A, MsgS::PingReq(IdS::Fix(C), Num::Abs(1)))
                .items(&[&[6, 2]])
                .a(),
            msg(A, MsgS::IndirectPing(IdS::Fix(C), Num::Abs(1)))
                .items(&[&[6, 3]])
                .a(),
            msg(B, MsgS::IndirectAck(IdS::Fix(C), Num::Abs(1))).a(),
            msg(A, MsgS::TurnUndead).a(),
            Act::Leave,
        ];
        s.tm = TMode::Any;
        s.depth = if t { 6 } else { 4 };
        s.max_states = if t { 3_000_000 } else { 150_000 };
        with(s, CustomMon::default()).explore(r);
    }
    // crowds of items: more than fit in a datagram, and datagrams with hundreds of them
    for (count, size, inval, mtx) in [
        (12u8, 1400usize, Inval::Key, 2u8),
        (40, 60, Inval::Key, 2),
        (40, 1400, Inval::Never, 1),
        (250, 1400, Inval::Key, 3),
        (250, 65_535, Inval::Key, 2),
    ] {
        let mut c = cfg();
        c.max_packet_size = nz(size);
        c.num_indirect_probes = nz(3);
        c.periodic_gossip = pp(700, 2);
        tx(&mut c, mtx);
        let mut init = Init::new(idk(0, 1, K_RENEW), c);
        init.handler = McHandler::new(inval);
        init.handler.deny = 1 << 3;
        let mut s = Sn::base(&format!("crowd{count}-size{size}-tx{mtx}-{inval:?}"), init, NoMon);
        let item = |k: u8, v: u8| {
            let mut x = vec![k, v];
            x.resize(2 + usize::from(k % 7), 7);
            x
        };
        let mut pre = vec![Act::Apply(
            (1..=8).map(|a| up(id(a, 0), 0, Alive)).collect(),
            false,
        )];
        let from = if count > 200 { 1 } else { 2 };
        let all: Vec<Vec<u8>> = (from..=count).filter(|k| *k != 0xEE).map(|k| item(k, 1)).collect();
        for some in all.chunks(if size < 100 { 4 } else { 100 }) {
            let mut m = msg(A, MsgS::Broadcast);
            m.items = some.to_vec();
            pre.push(m.a());
        }
        s.inits = vec![(s.inits[0].0.clone(), pre)];
        let flood: Vec<Vec<u8>> = (1..=count.saturating_add(3)).filter(|k| *k != 0xEE).map(|k| item(k, 2)).collect();
        let mut many = msg(A, MsgS::Broadcast);
        let mut room = size - 60.min(size / 2);
        for x in flood {
            if room > x.len() + 2 {
                room -= x.len() + 2;
                many.items.push(x);
            }
        }
        s.acts = vec![
            Act::Gossip,
            Act::Broadcast,
            Act::AddB(item(9, 5)),
            Act::AddB(item(5, 2)),
            Act::AddB(item(0, 2)),
            many.clone().a(),
            msg(B, MsgS::Ping(Num::Abs(7))).a(),
            msg(C, MsgS::Ping(Num::Abs(7))).a(),
            msg(B, MsgS::Announce).a(),
            Act::Apply((1..=30).map(|a| up(id(a, 0), 5, Suspect)).collect(), true),
            Act::Leave,
        ];
        s.tm = TMode::Any;
        s.m = 1;
        s.depth = if count > 200 { 2 } else { 3 } + usize::from(t);
        s.max_states = if t { 400_000 } else { 20_000 };
        with(s, CustomMon::default()).explore(r);
    }
    // items in datagrams that are about the receiver itself, or about its last member
    for kind in [K_RENEW, K_NONE] {
        for (size, inval) in [(1400usize, Inval::Key), (36, Inval::Never)] {
            let mut c = cfg();
            c.notify_down_members = true;
            c.max_packet_size = nz(size);
            c.num_indirect_probes = nz(3);
            tx(&mut c, 2);
            let mut init = Init::new(idk(0, 1, kind), c);
            init.handler = McHandler::new(inval);
            let mut s = Sn::base(&format!("about-itself-kind{kind}-size{size}"), init, NoMon);
            s.inits[0].1 = vec![
                Act::Apply(vec![up(A, 0, Alive), up(B, 0, Alive)], false),
                Act::AddB(vec![1, 1]),
            ];
            let it: &[&[u8]] = &[&[2, 1], &[1, 2, 9]];
            let one: &[&[u8]] = &[&[3, 1]];
            s.acts = vec![
                msg(A, MsgS::Gossip).ups(&[own(Inc::Own(0), Down)]).items(it).a(),
                msg(A, MsgS::Ping(Num::Abs(7))).ups(&[own(Inc::Own(0), Suspect)]).items(it).a(),
                msg(B, MsgS::Gossip).ups(&[own(Inc::Abs(MAX), Suspect)]).items(one).a(),
                msg(B, MsgS::Gossip).ups(&[own(Inc::Abs(0), Alive)]).items(one).a(),
                msg(B, MsgS::Feed).ups(&[up(A, 0, Down)]).items(it).a(),
                msg(A, MsgS::Gossip).ups(&[up(A, 0, Down), up(B, 0, Down)]).items(one).a(),
                msg(A1, MsgS::Broadcast).items(one).a(),
                msg(A, MsgS::TurnUndead).a(),
                msg(B, MsgS::Ack(Num::Abs(1))).items(&[&[4, 1], &[2, 2]]).a(),
                Act::AddB(vec![1, 1]),
                Act::Gossip,
                Act::Broadcast,
                Act::Reuse,
                Act::Leave,
            ];
            s.tm = TMode::Off;
            s.m = 1;
            s.depth = if t { 7 } else { 5 };
            s.max_states = if t { 2_000_000 } else { 60_000 };
            with(s, CustomMon::default()).explore(r);
        }
    }
    // limits, room and fan-out changed while items are pending
    for inval in [Inval::Key, Inval::Never] {
        let mut cs = Vec::new();
        for (n, size, k) in [(2u8, 1400usize, 1usize), (1, 1400, 3), (4, 20, 2), (3, 16, 1), (2, 1, 1)] {
            let mut c = cfg();
            c.num_indirect_probes = nz(k);
            c.max_packet_size = nz(size);
            c.periodic_gossip = pp(700, 1);
            tx(&mut c, n);
            cs.push(c);
        }
        let mut init = Init::new(idk(0, 1, K_RENEW), cs[0].clone());
        init.handler = McHandler::new(inval);
        init.handler.deny = 1 << 3;
        let mut s = Sn::base(&format!("settings-{inval:?}"), init, NoMon);
        s.cfgs = cs;
        s.inits[0].1 = vec![
            Act::Apply(vec![up(A, 0, Alive), up(B, 0, Alive), up(C, 0, Alive)], false),
            Act::AddB(vec![1, 1]),
        ];
        s.acts = vec![
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
            Act::SetCfg(3),
            Act::SetCfg(4),
            Act::Gossip,
            Act::Broadcast,
            Act::AddB(vec![1, 2]),
            Act::AddB(vec![2, 1, 9, 9]),
            msg(A, MsgS::Ping(Num::Abs(7))).items(&[&[3, 1]]).a(),
            Act::Apply(vec![up(D, 0, Alive)], true),
        ];
        s.tm = TMode::Any;
        s.m = 1;
        s.depth = if t { 7 } else { 5 };
        s.max_states = if t { 2_000_000 } else { 150_000 };
        with(s, CustomMon::default()).explore(r);
    }
    // items of every order of magnitude a length prefix can take
    for size in [300usize, 66_000, 132_000] {
        if size == 66_000 && !t {
            continue;
        }
        let mut c = cfg();
        c.max_packet_size = nz(size);
        c.num_indirect_probes = nz(3);
        tx(&mut c, 2);
        let init = Init::new(idk(0, 1, K_RENEW), c);
        let mut s = Sn::base(&format!("huge-items-size{size}"), init, NoMon);
        s.inits = vec![(
            s.inits[0].0.clone(),
            vec![Act::Apply(vec![up(A, 0, Alive), up(B, 0, Alive)], false)],
        )];
        let item = |k: u8, n: usize| {
            let mut x: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            x[0] = k;
            x[1] = 1;
            x
        };
        s.acts = vec![Act::Gossip, Act::Broadcast, msg(B, MsgS::Ping(Num::Abs(7))).a()];
        let room = size - 32;
        for (k, n) in [
            127usize, 128, 254, 255, 256, 257, 258, 32_767, 32_768, 65_279, 65_280, 65_534, 65_535,
        ]
        .into_iter()
        .enumerate()
        {
            let x = item(k as u8, n);
            if n + 4 <= room {
                let mut m = msg(A, MsgS::Broadcast);
                m.items = vec![vec![0x40, 1, 2], x.clone(), vec![0x41, 1]];
                if n + 16 <= room {
                    s.acts.push(m.a());
                }
            }
            s.acts.push(Act::AddB(x));
        }
        s.acts.push(Act::AddB(item(0x50, 65_536)));
        s.acts.push(Act::AddB(item(0x51, 65_537)));
        s.acts.push(Act::AddB(item(0x52, 131_072 + 255)));
        s.tm = TMode::Off;
        s.m = 1;
        s.depth = if t { 4 } else { 3 };
        s.max_states = if t { 200_000 } else { 20_000 };
        with(s, CustomMon::default()).explore(r);
    }
    // datagrams cut short, or with a damaged length, anywhere after the header
    for codec in [FIXED, VAR] {
        let mut init = Init::new(idk(0, 1, K_RENEW), cfg());
        init.codec = codec;
        let mut s = Sn::base(&format!("damaged-{:?}", codec.enc), init, NoMon);
        let i = s.inits[0].0.clone();
        s.inits = vec![(
            i,
            vec![
                Act::Apply(vec![up(A, 0, Alive), up(B, 0, Alive)], false),
                Act::AddB(vec![5, 1]),
            ],
        )];
        let me = idk(0, 1, K_RENEW);
        use foca::Message as M;
        let mut seen = std::collections::HashSet::new();
        s.acts = Vec::new();
        for (m, ups) in [
            (M::Broadcast, vec![]),
            (M::Gossip, vec![]),
            (M::Gossip, vec![foca::Member::new(C, 0, Alive)]),
            (M::Ping(7), vec![foca::Member::new(C, 0, Alive), foca::Member::new(D, 1, Suspect)]),
            (M::Feed, vec![foca::Member::new(C, 0, Alive)]),
        ] {
            for items in [
                vec![vec![1u8, 1], vec![2, 1, 9, 9, 9]],
                vec![vec![1, 1, 0, 3, 1], vec![1], vec![1, 2]],
                vec![vec![0, 0, 0, 1], vec![0xEE, 2], vec![3, 3]],
            ] {
                let d = build(&codec, A, 0, me, m.clone(), &ups, &items);
                let hl = parse(&codec, &d).map(|p| p.hdr_len).unwrap_or(0);
                let mut all: Vec<Vec<u8>> = (hl..=d.len()).map(|k| d[..k].to_vec()).collect();
                for k in hl..d.len() {
                    for x in [0u8, 1, 2, 3, 255] {
                        let mut e = d.clone();
                        e[k] = x;
                        all.push(e);
                    }
                    let mut e = d.clone();
                    e.remove(k);
                    all.push(e);
                    let mut e = d.clone();
                    e.insert(k, 0);
                    all.push(e);
                }
                for e in all {
                    // (what a changed member list means is for others to judge)
                    if seen.insert(e.clone()) {
                        s.acts.push(Act::Raw(e));
                    }
                }
            }
        }
        s.acts.push(Act::Gossip);
        s.tm = TMode::Off;
        s.depth = if t { 3 } else { 2 };
        s.max_states = if t { 1_500_000 } else { 100_000 };
        with(s, CustomMon::default()).explore(r);
    }
    // exact fit: item sizes around the space left
    {
        let sizes: Vec<usize> = if t {
            (12..=40).collect()
        } else {
            (14..=30).step_by(2).collect()
        };
        for size in sizes {
            let mut c = cfg();
            c.max_packet_size = nz(size);
            c.num_indirect_probes = nz(1);
            tx(&mut c, 2);
            let mut s = Sn::base(
                &format!("fit-size{size}"),
                Init::new(idk(0, 1, K_RENEW), c),
                NoMon,
            );
            s.inits = vec![(
                s.inits[0].0.clone(),
                vec![Act::Apply(vec![up(A, 0, Alive)], true)],
            )];
            s.acts = vec![
                Act::AddB(vec![1, 1]),
                Act::AddB(big(2, 1, 5)),
                Act::AddB(big(3, 1, size - 11)),
                Act::AddB(big(4, 1, size)),
                Act::Gossip,
                Act::Broadcast,
                msg(A, MsgS::Ping(Num::Abs(7))).a(),
            ];
            s.tm = TMode::Off;
            s.depth = if t { 8 } else { 6 };
            s.max_states = if t { 300_000 } else { 30_000 };
            with(s, CustomMon::default()).explore(r);
        }
    }
}

pub fn c17(r: &mut Report) {
    let t = r.thorough();
    r.rule = "one real instance; at every reachable state of every scope all classes of rejected input are injected, singly and together; the state is compared before and after (complete dump), and where dumps differ all continuations are; every call is also run twice".into();
    let probe = || {
        vec![
            msg(A, MsgS::Ping(Num::Abs(7))).a(),
            msg(A, MsgS::Announce).a(),
            msg(A, MsgS::Gossip).ups(&[up(B, 1, Suspect)]).a(),
            msg(A, MsgS::TurnUndead).a(),
            Act::Gossip,
            Act::Broadcast,
            Act::AddB(vec![1, 9]),
            Act::Leave,
        ]
    };
    let mut tot = (0u64, 0u64);
    let mut go = |s: Sn<NoMon>, r: &mut Report| {
        let mon = TraceMon::new(probe(), 2);
        let (a, b) = (mon.checked.clone(), mon.twins.clone());
        with(s, mon).explore(r);
        tot.0 += a.load(std::sync::atomic::Ordering::Relaxed);
        tot.1 += b.load(std::sync::atomic::Ordering::Relaxed);
    };
    for (name, kind, size, codec) in [
        ("renewable", K_RENEW, 1400usize, FIXED),
        ("fixed", K_NONE, 60, FIXED),
        ("var", K_RENEW, 80, VAR),
    ] {
        let mut c = cfg();
        c.notify_down_members = true;
        c.max_packet_size = nz(size);
        c.remove_down_after = ms(5000);
        if kind == K_RENEW {
            c.periodic_announce_to_down_members = pp(1700, 2);
            c.periodic_gossip = pp(700, 1);
        }
        tx(&mut c, 2);
        let mut init = Init::new(idk(0, 1, kind), c);
        init.codec = codec;
        let mut s = Sn::base(name, init, NoMon);
        s.acts = vec![
            msg(A, MsgS::Gossip).a(),
            msg(A, MsgS::Gossip).items(&[&[2, 1]]).a(),
            msg(B, MsgS::Ping(Num::Abs(3))).ups(&[up(A, 0, Down)]).a(),
            msg(B, MsgS::Announce).a(),
            msg(A, MsgS::Gossip).ups(&[own(Inc::Own(0), Suspect)]).a(),
            msg(A, MsgS::TurnUndead).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            Act::AddB(vec![1, 1]),
            Act::Leave,
            Act::Reuse,
            Act::ChangeId(IdS::OwnNext),
        ];
        s.tm = TMode::Any;
        s.m = 2;
        s.depth = if t { 5 } else { 4 };
        s.max_states = if t { 250_000 } else { 5_000 };
        go(s, r);
    }
    // settings changed at any time
    {
        let mut c = cfg();
        c.notify_down_members = true;
        c.periodic_gossip = pp(700, 2);
        tx(&mut c, 2);
        let mut s = Sn::base("settings", Init::new(idk(0, 1, K_RENEW), c.clone()), NoMon);
        let mut small = cfg();
        small.max_packet_size = nz(30);
        small.periodic_gossip = pp(700, 1);
        small.num_indirect_probes = nz(1);
        let mut bare = cfg();
        bare.max_packet_size = nz(10);
        bare.suspect_to_down_after = ms(10);
        bare.notify_down_members = true;
        let mut none = cfg();
        none.max_packet_size = nz(1);
        s.cfgs = vec![c, small, bare, none];
        s.acts = vec![
            msg(A, MsgS::Gossip).items(&[&[2, 1]]).a(),
            msg(B, MsgS::Ping(Num::Abs(3))).ups(&[up(A, 0, Down)]).a(),
            msg(A, MsgS::Gossip).ups(&[own(Inc::Own(0), Suspect)]).a(),
            msg(A, MsgS::TurnUndead).a(),
            Act::AddB(vec![1, 1]),
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
            Act::SetCfg(3),
        ];
        s.tm = TMode::Any;
        s.m = 2;
        s.depth = if t { 5 } else { 4 };
        s.max_states = if t { 150_000 } else { 4_000 };
        go(s, r);
    }
    {
        let mut mon = TraceMon::new(probe(), 1);
        mon.ep.keep = false;
        let mut s = super::timers::aged(256);
        s.acts.truncate(1);
        s.tm = TMode::Off;
        with(s, mon).explore(r);
    }
    // rounds, suspicions and epochs in every stage, timers in any order
    for kind in [K_RENEW, K_NONE] {
        let mut c = cfg();
        c.notify_down_members = true;
        c.periodic_gossip = pp(700, 1);
        let prb = |k| Act::Timer(foca::Timer::ProbeRandomMember(k));
        let ind = |x, k| {
            Act::Timer(foca::Timer::SendIndirectProbe {
                probed_id: x,
                token: k,
            })
        };
        let mut s = Sn::base(
            &format!("epochs-{}", if kind == K_RENEW { "renewable" } else { "fixed" }),
            Init::new(idk(0, 1, kind), c),
            NoMon,
        );
        let i = s.inits[0].0.clone();
        let g = || msg(A, MsgS::Gossip).a();
        // ways to end an epoch in the middle of a round and to start the next one
        let mut ends: Vec<Vec<Act>> = vec![
            vec![Act::ChangeId(IdS::OwnNext), g()],
            vec![Act::Leave, Act::Reuse, g()],
            vec![
                msg(B, MsgS::Gossip).ups(&[up(A, 0, Down)]).a(),
                Act::Apply(vec![up(B, 0, Down)], false),
                msg(A1, MsgS::Gossip).a(),
                g(),
            ],
            vec![Act::Leave],
        ];
        if kind == K_RENEW {
            ends.push(vec![msg(A, MsgS::TurnUndead).a(), g()]);
        }
        s.inits.clear();
        for e in ends {
            for ack in [false, true] {
                let mut v = vec![g(), prb(0)];
                if ack {
                    v.push(msg(A, MsgS::Ack(P)).a());
                } else {
                    v.push(ind(A, 0));
                }
                v.push(msg(B, MsgS::Gossip).a());
                v.extend(e.clone());
                s.inits.push((i.clone(), v.clone()));
                if e.len() > 1 {
                    v.push(prb(1));
                    s.inits.push((i.clone(), v.clone()));
                    v.push(msg(IdS::Pinged, MsgS::Ack(P)).a());
                    s.inits.push((i.clone(), v));
                }
            }
        }
        s.acts = vec![
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(B, MsgS::Gossip).a(),
            Act::ChangeId(IdS::OwnNext),
        ];
        s.tm = TMode::Any;
        s.depth = if t { 4 } else { 2 };
        s.max_states = if t { 100_000 } else { 4_000 };
        go(s, r);
    }
    {
        let mut c = cfg();
        c.periodic_announce = pp(1300, 1);
        c.suspect_to_down_after = ms(1500);
        c.remove_down_after = ms(2500);
        let mut s = Sn::base("rounds", Init::new(idk(0, 1, K_RENEW), c), NoMon);
        s.inits = vec![(
            s.inits[0].0.clone(),
            vec![msg(A, MsgS::Gossip).a(), msg(B, MsgS::Gossip).a()],
        )];
        s.acts = vec![
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(B, MsgS::ForwardedAck(IdS::Fix(A), P)).a(),
            msg(A, MsgS::TurnUndead).a(),
        ];
        s.tm = TMode::Order(vec![0]);
        s.depth = if t { 16 } else { 10 };
        s.max_states = if t { 250_000 } else { 6_000 };
        go(s, r);
    }
    // two instances side by side
    let twin = TwinMon::default();
    for k in [K_RENEW, K_NONE] {
        let mut c = cfg();
        c.notify_down_members = true;
        c.periodic_announce = pp(1300, 2);
        c.periodic_gossip = pp(700, 2);
        c.periodic_announce_to_down_members = pp(1700, 2);
        c.remove_down_after = ms(5000);
        c.max_packet_size = nz(if k == K_RENEW { 1400 } else { 40 });
        tx(&mut c, 2);
        let name = if k == K_RENEW { "twins-renewable" } else { "twins-fixed-id" };
        let mut s = Sn::base(name, Init::new(idk(0, 1, k), c), NoMon);
        let crowd = |n: u8| Act::Apply((1..=n).map(|a| up(id(a, 0), 0, if a % 4 == 3 { Down } else { Alive })).collect(), true);
        s.inits = [0u8, 3, 12]
            .iter()
            .map(|n| (s.inits[0].0.clone(), vec![crowd(*n), Act::AddB(vec![1, 1]), Act::AddB(vec![2, 1])]))
            .collect();
        s.acts = vec![
            msg(A, MsgS::Gossip).items(&[&[4, 1], &[5, 1, 1]]).a(),
            msg(B, MsgS::Ping(Num::Abs(3))).ups(&[up(A, 0, Down), up(C, 0, Suspect)]).a(),
            msg(A1, MsgS::Announce).a(),
            msg(A, MsgS::PingReq(IdS::Fix(B), Num::Abs(1))).a(),
            msg(A, MsgS::Gossip).ups(&[own(Inc::Own(0), Suspect)]).a(),
            msg(A, MsgS::TurnUndead).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            Act::Gossip,
            Act::Broadcast,
            Act::Leave,
            Act::Reuse,
            Act::ChangeId(IdS::OwnNext),
            Act::Apply(vec![up(A, 0, Down), up(B, 0, Down)], true),
        ];
        s.tm = TMode::Any;
        s.m = 1;
        s.depth = if t { 7 } else { 5 };
        s.max_states = if t { 1_500_000 } else { 60_000 };
        with(s, twin.clone()).explore(r);
    }
    r.count("calls_run_by_two_instances", twin.compared.load(std::sync::atomic::Ordering::Relaxed));
    r.count("rejected_inputs_injected", tot.0);
    r.count("continuations_compared", tot.1);
}
