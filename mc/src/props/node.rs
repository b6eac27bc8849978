//! C07, C08, C09, C10, C19: monitors over the state graph of one instance facing every
//! environment of a scope.
use crate::base::*;
use crate::explore::*;
use crate::mons::*;
use crate::sn::*;
use foca::State::{Alive, Down, Suspect};
use std::time::Duration;

pub const MAX: u16 = u16::MAX;
pub const P: Num = Num::Cur;

pub fn own(inc: Inc, s: foca::State) -> Up {
    Up(IdS::Own, inc, s)
}

/// Everything peers can say with well-formed datagrams: `peers` talk (header incarnation 0),
/// `ups` is the menu of single updates a Gossip may carry.
pub fn talk(peers: &[Id], ups: &[Up]) -> Vec<Act> {
    let mut v = Vec::new();
    for &p in peers {
        v.push(msg(p, MsgS::Gossip).a());
        v.push(msg(p, MsgS::Ping(Num::Abs(7))).a());
        v.push(msg(p, MsgS::Ack(P)).a());
        v.push(msg(p, MsgS::Announce).a());
        v.push(msg(p, MsgS::TurnUndead).a());
        for &u in ups {
            if u.0 == IdS::Fix(p) {
                continue;
            }
            v.push(msg(p, MsgS::Gossip).ups(&[u]).a());
        }
    }
    v
}
pub fn api() -> Vec<Act> {
    vec![
        Act::Gossip,
        Act::Leave,
        Act::Reuse,
        Act::ChangeId(IdS::OwnNext),
    ]
}

/// Scopes shared by the monitors that judge membership, notifications, identity and
/// destinations.
pub fn scopes(r: &Report, heavy: bool) -> Vec<Sn<NoMon>> {
    let t = r.thorough();
    let mut v: Vec<Sn<NoMon>> = Vec::new();
    // A: membership and self updates, every renewal behaviour, notify_down_members on
    for (k, name) in [
        (K_RENEW, "renewable"),
        (K_NONE, "fixed-id"),
        (K_SAME, "renew-same"),
        (K_LOSE, "renew-loses"),
    ] {
        let mut c = cfg();
        c.notify_down_members = true;
        c.max_transmissions = std::num::NonZeroU8::new(2).unwrap();
        c.periodic_announce_to_down_members = pp(1500, 2);
        let mut s = Sn::base(&format!("self-{name}"), Init::new(idk(0, 3, k), c), NoMon);
        let ups = [
            own(Inc::Own(0), Suspect),
            own(Inc::Own(-1), Suspect),
            own(Inc::Abs(MAX - 1), Suspect),
            own(Inc::Abs(MAX), Suspect),
            own(Inc::Own(0), Down),
            own(Inc::Own(5), Alive),
            Up(IdS::OwnPrev, Inc::Abs(0), Alive),
            Up(IdS::OwnNext, Inc::Abs(2), Suspect),
            up(id(2, 0), 0, Down),
            up(id(2, 0), 0, Alive),
        ];
        s.acts = talk(&[id(1, 0)], &ups);
        s.acts.push(msg(id(2, 0), MsgS::TurnUndead).a());
        s.acts
            .push(msg(id(2, 0), MsgS::Announce).to(IdS::OwnPrev).a());
        s.acts
            .push(msg(id(1, 0), MsgS::TurnUndead).to(IdS::OwnPrev).a());
        s.acts.push(msg(id(2, 0), MsgS::Gossip).a());
        s.acts.push(Act::Apply(
            vec![
                own(Inc::Own(0), Down),
                own(Inc::Abs(MAX), Suspect),
                up(id(1, 0), 0, Down),
            ],
            true,
        ));
        s.acts.push(Act::Apply(
            vec![up(id(1, 0), 0, Down), up(id(2, 0), 0, Down)],
            false,
        ));
        s.acts.push(Act::Apply(
            vec![
                up(id(1, 0), 0, Down),
                up(id(2, 0), 0, Down),
                own(Inc::Own(0), Down),
                up(id(3, 0), 0, Alive),
            ],
            true,
        ));
        s.acts.push(
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[
                    up(id(1, 0), 0, Down),
                    up(id(2, 0), 0, Down),
                    own(Inc::Abs(MAX), Suspect),
                ])
                .a(),
        );
        s.acts.extend(api());
        s.tm = TMode::Any;
        s.m = 2;
        s.depth = if t { 6 } else { 4 };
        s.max_states = if t { 3_000_000 } else { 120_000 };
        v.push(s);
    }
    // B: several peers, generations, all update kinds, forget timers
    {
        let mut c = cfg();
        c.notify_down_members = true;
        let mut s = Sn::base("peers", Init::new(idk(0, 1, K_RENEW), c), NoMon);
        let mut ups = Vec::new();
        for i in [id(1, 0), id(1, 1), id(2, 0)] {
            ups.push(up(i, 0, Alive));
            ups.push(up(i, 1, Suspect));
            ups.push(up(i, 0, Down));
        }
        ups.push(up(id(0, 0), 4, Alive));
        s.acts = talk(&[id(1, 0), id(1, 1), id(2, 0)], &ups);
        s.acts.push(msg(id(1, 0), MsgS::Gossip).inc(2).a());
        s.acts.push(
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[up(id(1, 0), 0, Down)])
                .a(),
        );
        s.acts.push(
            msg(id(1, 0), MsgS::Ping(Num::Abs(1)))
                .ups(&[up(id(1, 1), 0, Alive), up(id(2, 0), 0, Down)])
                .items(&[&[1, 1]])
                .a(),
        );
        s.acts
            .push(msg(id(1, 0), MsgS::PingReq(IdS::Fix(id(2, 0)), Num::Abs(9))).a());
        s.acts
            .push(msg(id(1, 0), MsgS::Broadcast).items(&[&[2, 1, 7]]).a());
        s.acts.push(Act::Apply(
            vec![
                up(id(1, 0), 0, Down),
                up(id(1, 1), 0, Suspect),
                up(id(1, 1), 0, Down),
            ],
            true,
        ));
        s.acts.push(Act::Apply(
            vec![
                up(id(1, 0), 0, Alive),
                up(id(2, 0), 0, Alive),
                up(id(3, 0), 0, Alive),
            ],
            true,
        ));
        let (mut i, pre) = s.inits[0].clone();
        i.cfg.notify_down_members = false;
        s.inits.push((i, pre));
        s.m = if heavy { 1 } else { 2 };
        s.depth = if t { 5 } else { 4 };
        s.max_states = if t { 3_000_000 } else { 100_000 };
        v.push(s);
    }
    // B': starting with a failed probe: suspicion, its timeout, forgetting
    for (k, name) in [(K_RENEW, "renewable"), (K_NONE, "fixed-id")] {
        let mut s = Sn::base(
            &format!("suspicion-{name}"),
            Init::new(idk(0, 1, k), cfg()),
            NoMon,
        );
        let i = s.inits[0].0.clone();
        s.inits.clear();
        let prb = || Act::Timer(foca::Timer::ProbeRandomMember(0));
        let ind = |x| {
            Act::Timer(foca::Timer::SendIndirectProbe {
                probed_id: x,
                token: 0,
            })
        };
        for notify in [true, false] {
            let mut i = i.clone();
            i.cfg.notify_down_members = notify;
            i.cfg.periodic_announce_to_down_members = pp(1700, 2);
            let g = msg(id(1, 0), MsgS::Gossip).a();
            let v = vec![g, prb(), ind(id(1, 0)), prb()];
            s.inits.push((i.clone(), v.clone()));
            // somebody else is there
            let mut w = v.clone();
            w.push(msg(id(2, 0), MsgS::Gossip).a());
            s.inits.push((i.clone(), w));
            // and a Down one
            let mut w = v.clone();
            w.push(Act::Apply(vec![up(id(2, 0), 0, Down)], true));
            s.inits.push((i, w));
        }
        s.acts = vec![
            msg(id(1, 0), MsgS::Gossip).a(),
            msg(id(1, 0), MsgS::Ack(P)).inc(1).a(),
            msg(id(1, 1), MsgS::Ping(Num::Abs(3))).a(),
            msg(id(1, 0), MsgS::TurnUndead).a(),
            msg(id(2, 0), MsgS::Gossip).ups(&[up(id(1, 0), 0, Down)]).a(),
            msg(id(2, 0), MsgS::Gossip)
                .ups(&[own(Inc::Own(0), Down)])
                .a(),
            msg(id(2, 0), MsgS::Announce).a(),
            Act::Apply(vec![up(id(1, 0), 0, Down), up(id(2, 0), 0, Down)], false),
            Act::Leave,
            Act::Reuse,
            Act::ChangeId(IdS::OwnNext),
        ];
        s.tm = TMode::Any;
        s.m = 2;
        s.depth = if t { 6 } else { 4 };
        s.max_states = if t { 3_000_000 } else { 250_000 };
        v.push(s);
    }
    // C: two peers and probing: longer histories driven by timers
    {
        let mut c = cfg();
        c.notify_down_members = true;
        c.max_transmissions = std::num::NonZeroU8::new(1).unwrap();
        c.periodic_announce = pp(1300, 1);
        c.periodic_gossip = pp(700, 1);
        c.periodic_announce_to_down_members = pp(1700, 2);
        let mut s = Sn::base("timers", Init::new(idk(0, 1, K_RENEW), c), NoMon);
        s.acts = vec![
            msg(id(1, 0), MsgS::Gossip).a(),
            msg(id(1, 1), MsgS::Gossip).a(),
            msg(id(2, 0), MsgS::Gossip)
                .ups(&[up(id(1, 0), 0, Alive)])
                .a(),
            msg(id(2, 0), MsgS::Gossip)
                .ups(&[own(Inc::Own(0), Suspect)])
                .a(),
            msg(id(2, 0), MsgS::TurnUndead).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[up(id(0, 0), 4, Suspect)])
                .a(),
            Act::Leave,
            Act::Reuse,
        ];
        // the same without the courtesy messages
        let (mut i, pre) = s.inits[0].clone();
        i.cfg.notify_down_members = false;
        s.inits.push((i, pre));
        s.tm = TMode::Order(vec![0, 900]);
        s.m = 2;
        s.depth = if t { 12 } else { 7 };
        s.max_states = if t { 6_000_000 } else { 500_000 };
        v.push(s);
    }
    // D: a crowd of members in every state, all kinds of datagrams carrying news about the
    // instance itself, from members of every standing
    for (k, name) in [(K_RENEW, "renewable"), (K_NONE, "fixed-id")] {
        let mut c = cfg();
        c.notify_down_members = true;
        let mut s = Sn::base(&format!("crowd-{name}"), Init::new(idk(0, 3, k), c), NoMon);
        let (mut i, _) = s.inits[0].clone();
        i.cfg.periodic_announce_to_down_members = pp(1500, 2);
        s.inits.clear();
        let crowd = Act::Apply(
            vec![
                up(id(1, 0), 0, Alive),
                up(id(2, 0), 2, Suspect),
                up(id(3, 1), 1, Alive),
                up(id(4, 0), 0, Alive),
                up(id(5, 0), 0, Down),
                up(id(6, 1), 3, Down),
            ],
            false,
        );
        let prb = || Act::Timer(foca::Timer::ProbeRandomMember(0));
        for bump in [None, Some(0), Some(4), Some(MAX - 1)] {
            for notify in [true, false] {
                let mut i = i.clone();
                i.cfg.notify_down_members = notify;
                let mut pre = vec![crowd.clone(), prb()];
                if let Some(b) = bump {
                    pre.push(Act::Apply(vec![own(Inc::Abs(b), Suspect)], false));
                }
                s.inits.push((i.clone(), pre.clone()));
                // the backlog isn't empty either
                pre.push(Act::Apply(vec![up(id(7, 0), 0, Alive)], true));
                s.inits.push((i, pre));
            }
        }
        let news: Vec<Up> = [-3, -1, 0, 2]
            .into_iter()
            .flat_map(|d| [own(Inc::Own(d), Suspect), own(Inc::Own(d), Down)])
            .collect();
        for &u in &news {
            s.acts.push(msg(id(1, 0), MsgS::Gossip).ups(&[u]).a());
            // in company: before and after news about others
            s.acts.push(Act::Apply(
                vec![up(id(4, 0), 1, Suspect), u, up(id(1, 0), 0, Down)],
                true,
            ));
        }
        let kinds = [
            MsgS::Ping(Num::Abs(9)),
            MsgS::Ack(P),
            MsgS::PingReq(IdS::Fix(id(2, 0)), Num::Abs(9)),
            MsgS::IndirectPing(IdS::Fix(id(2, 0)), Num::Abs(9)),
            MsgS::IndirectAck(IdS::Fix(id(2, 0)), Num::Abs(9)),
            MsgS::ForwardedAck(IdS::Pinged, P),
            MsgS::Feed,
        ];
        for k in kinds {
            s.acts
                .push(msg(id(1, 0), k).ups(&[own(Inc::Own(0), Suspect)]).a());
            s.acts
                .push(msg(id(3, 1), k).ups(&[own(Inc::Own(-1), Down)]).a());
        }
        // from the dead, the superseded and the unknown
        for p in [id(5, 0), id(3, 0), id(6, 0), id(8, 0), id(6, 2)] {
            s.acts
                .push(msg(p, MsgS::Gossip).ups(&[own(Inc::Own(0), Suspect)]).a());
            s.acts
                .push(msg(p, MsgS::Gossip).ups(&[own(Inc::Own(0), Down)]).a());
            s.acts.push(msg(p, MsgS::TurnUndead).a());
            s.acts.push(msg(p, MsgS::Announce).a());
            s.acts
                .push(msg(p, MsgS::PingReq(IdS::Fix(id(1, 0)), Num::Abs(9))).a());
        }
        s.acts.push(msg(id(1, 0), MsgS::TurnUndead).a());
        s.acts.extend(api());
        s.tm = TMode::Any;
        s.m = 1;
        s.depth = if t { 4 } else { 3 };
        s.max_states = if t { 3_000_000 } else { 400_000 };
        v.push(s);
    }
    // E: the instance's own former identities among the Down records, everything that makes it
    // pick someone to talk to (custom broadcasts included)
    {
        let mut c = cfg();
        c.notify_down_members = true;
        c.num_indirect_probes = nz(4);
        c.periodic_announce = pp(1300, 3);
        c.periodic_gossip = pp(700, 3);
        c.periodic_announce_to_down_members = pp(1700, 5);
        let me = idk(0, 3, K_RENEW);
        let mut s = Sn::base("former-selves", Init::new(me, c.clone()), NoMon);
        s.inits.clear();
        let own_addr = |g: u8| up(idk(0, g, K_RENEW), 0, Down);
        for (recs, items) in [
            (vec![own_addr(1)], true),
            (vec![own_addr(2), up(id(3, 0), 0, Down)], true),
            (vec![own_addr(2)], false),
            // one that wins against the current identity
            (vec![own_addr(5)], true),
        ] {
            for alone in [false, true] {
                let mut first = vec![up(id(1, 0), 0, Alive)];
                if !alone {
                    first.push(up(id(2, 0), 1, Suspect));
                }
                first.extend(recs.iter().copied());
                let mut pre = vec![Act::Apply(first, true)];
                if items {
                    pre.push(Act::AddB(vec![1, 1, 7]));
                }
                s.inits.push((Init::new(me, c.clone()), pre));
            }
        }
        s.acts = vec![
            Act::Broadcast,
            Act::AddB(vec![2, 1]),
            msg(id(1, 0), MsgS::Gossip).a(),
            msg(id(1, 0), MsgS::Announce).a(),
            msg(id(4, 0), MsgS::Announce).to(IdS::OwnPrev).a(),
            msg(id(1, 0), MsgS::Ping(Num::Abs(9)))
                .ups(&[own_addr(2)])
                .items(&[&[3, 1]])
                .a(),
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[Up(IdS::OwnNext, Inc::Abs(0), Alive)])
                .a(),
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[Up(IdS::OwnPrev, Inc::Abs(0), Suspect)])
                .a(),
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[own(Inc::Own(0), Suspect)])
                .a(),
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[own(Inc::Own(0), Down)])
                .a(),
            msg(id(1, 0), MsgS::Gossip)
                .ups(&[up(id(2, 0), 1, Down)])
                .a(),
            msg(id(1, 0), MsgS::TurnUndead).a(),
            // from identities that could have been its own
            msg(idk(0, 2, K_RENEW), MsgS::Announce).a(),
            msg(idk(0, 5, K_RENEW), MsgS::Ping(Num::Abs(1))).a(),
            msg(IdS::OwnPrev, MsgS::TurnUndead).a(),
        ];
        s.acts.extend(api());
        s.tm = TMode::Any;
        s.m = if heavy { 1 } else { 2 };
        s.depth = if t { 5 } else { 4 };
        s.max_states = if t { 3_000_000 } else { 200_000 };
        v.push(s);
    }
    // F: settings changed at any time: packets with room for one update, for nothing but a
    // header, for nothing at all
    for (k, name) in [(K_RENEW, "renewable"), (K_NONE, "fixed-id")] {
        let me = idk(0, 3, k);
        let mut c = cfg();
        c.notify_down_members = true;
        // (periodic tasks can be disabled, never enabled)
        c.periodic_gossip = pp(700, 1);
        c.periodic_announce = pp(1300, 1);
        c.periodic_announce_to_down_members = pp(1700, 2);
        let hdr = FIXED
            .enc_header(&foca::Header {
                src: me,
                src_incarnation: 0,
                dst: me,
                message: foca::Message::PingReq {
                    target: me,
                    probe_number: 0,
                },
            })
            .len();
        let mut s = Sn::base(&format!("settings-{name}"), Init::new(me, c.clone()), NoMon);
        let mut small = c.clone();
        small.max_packet_size = nz(hdr + 2 + FIXED.enc_member(&foca::Member::alive(me)).len());
        small.notify_down_members = false;
        small.periodic_announce = None;
        small.suspect_to_down_after = Duration::from_millis(10);
        let mut bare = c.clone();
        bare.max_packet_size = nz(hdr);
        bare.periodic_announce_to_down_members = pp(100, 1);
        bare.periodic_gossip = None;
        bare.max_transmissions = std::num::NonZeroU8::new(1).unwrap();
        let mut none = c.clone();
        none.max_packet_size = nz(1);
        s.cfgs = vec![c, small, bare, none];
        s.acts = vec![
            Act::SetCfg(0),
            Act::SetCfg(1),
            Act::SetCfg(2),
            Act::SetCfg(3),
            Act::AddB(vec![1, 1]),
            Act::Broadcast,
            Act::Gossip,
            Act::Announce(id(3, 0)),
            Act::Leave,
            Act::Reuse,
            Act::ChangeId(IdS::OwnNext),
            Act::Apply(
                vec![
                    up(id(1, 0), 0, Alive),
                    up(id(2, 0), 1, Suspect),
                    up(id(3, 0), 0, Down),
                ],
                true,
            ),
            Act::Apply(vec![own(Inc::Own(0), Suspect)], true),
            Act::Apply(vec![own(Inc::Own(0), Down)], true),
            Act::Apply(vec![up(id(2, 0), 1, Down), up(id(1, 0), 0, Down)], true),
            msg(id(1, 0), MsgS::TurnUndead).a(),
            msg(id(1, 1), MsgS::Announce).a(),
            msg(id(3, 0), MsgS::Announce).a(),
            msg(id(2, 0), MsgS::Ping(Num::Abs(7))).a(),
        ];
        s.tm = TMode::Any;
        s.m = 1;
        s.depth = if t { 6 } else { 4 };
        s.max_states = if t { 3_000_000 } else { 200_000 };
        v.push(s);
    }
    // G: dozens to hundreds of members in every state, long batches
    {
        let me = idk(0, 3, K_RENEW);
        let mut s = Sn::base("multitude", Init::new(me, cfg()), NoMon);
        s.inits.clear();
        for (n, k, size) in [(24u8, 7, 1400), (40, 64, 300), (130, 3, 1400), (200, 250, 60_000)] {
            let mut c = cfg();
            c.notify_down_members = true;
            c.num_indirect_probes = nz(k);
            c.max_packet_size = nz(size);
            c.periodic_announce = pp(1300, k);
            c.periodic_gossip = pp(700, k);
            c.periodic_announce_to_down_members = pp(1700, k);
            let st = |a: u8| match a % 5 {
                0 | 1 | 2 => Alive,
                3 => Suspect,
                _ => Down,
            };
            let mut recs: Vec<Up> = (1..=n).map(|a| up(id(a, a % 3), (a % 4) as u16, st(a))).collect();
            recs.insert(n as usize / 2, up(idk(0, 2, K_RENEW), 0, Down));
            s.inits.push((
                Init::new(me, c.clone()),
                vec![
                    Act::Apply(recs.clone(), n % 3 == 1),
                    Act::AddB(vec![1, 1, 7]),
                    Act::Timer(foca::Timer::ProbeRandomMember(0)),
                ],
            ));
        }
        let range = |f: &dyn Fn(u8) -> Up| -> Vec<Up> { (1..=40).map(f).collect() };
        s.acts = vec![
            Act::Gossip,
            Act::Broadcast,
            Act::Leave,
            Act::ChangeId(IdS::OwnNext),
            // everybody Down, suspected, refuting, renewed, outdated; twice in a batch; backwards
            Act::Apply((1..=248).map(|a| up(id(a, a % 3), 0, Down)).collect(), true),
            Act::Apply(range(&|a| up(id(a, a % 3), (a % 4) as u16, Suspect)), false),
            Act::Apply(range(&|a| up(id(a, a % 3), 9, Alive)), true),
            Act::Apply(range(&|a| up(id(a, 3), 0, if a % 7 == 0 { Down } else { Alive })), true),
            Act::Apply(range(&|a| up(id(a, 0), 1, Down)), true),
            Act::Apply((0..80).map(|i| up(id(1 + i % 40, i / 40), 0, Alive)).collect(), true),
            Act::Apply((1..=40).rev().map(|a| up(id(a + 208, 0), 0, Alive)).collect(), false),
            msg(id(1, 1), MsgS::Gossip)
                .ups(&range(&|a| {
                    if a == 20 {
                        own(Inc::Own(0), Suspect)
                    } else {
                        up(id(a, 3), 0, Down)
                    }
                }))
                .a(),
            msg(id(1, 1), MsgS::Feed).ups(&range(&|a| up(id(a + 200, 0), 0, Alive))).a(),
            msg(id(21, 0), MsgS::Gossip).ups(&[own(Inc::Own(0), Down)]).a(),
            msg(id(21, 0), MsgS::Gossip).ups(&[own(Inc::Own(0), Suspect)]).a(),
            msg(id(23, 2), MsgS::Announce).a(),
            msg(id(23, 2), MsgS::Ping(Num::Abs(9))).a(),
            msg(id(24, 0), MsgS::Ping(Num::Abs(9))).a(),
            msg(id(22, 0), MsgS::Ping(Num::Abs(9))).a(),
            msg(id(22, 2), MsgS::Announce).a(),
            msg(id(251, 0), MsgS::Announce).a(),
            msg(idk(0, 2, K_RENEW), MsgS::Announce).a(),
            msg(id(17, 2), MsgS::TurnUndead).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
        ];
        s.tm = TMode::Any;
        s.m = 1;
        s.depth = if t { 3 } else { 2 };
        s.max_states = if t { 200_000 } else { 20_000 };
        v.push(s);
    }
    v
}
pub fn with<M: Mon>(s: Sn<NoMon>, mon: M) -> Sn<M> {
    Sn {
        name: s.name,
        inits: s.inits,
        acts: s.acts,
        tm: s.tm,
        m: s.m,
        rcap: s.rcap,
        cfgs: s.cfgs,
        mon,
        depth: s.depth,
        max_states: s.max_states,
        enabled: s.enabled,
    }
}

pub fn c07(r: &mut Report) {
    for s in scopes(r, true) {
        with(s, WireMon).explore(r);
    }
    packet_sizes(r);
    super::panics::wide_packets(r);
}
/// Every packet size: an instance full of things to say (members of different encoded sizes,
/// custom broadcasts of different lengths) performs and receives one of everything; the size
/// changes at runtime as well.
fn packet_sizes(r: &mut Report) {
    let t = r.thorough();
    let mut szs: Vec<usize> = (1..=if t { 330 } else { 150 }).collect();
    szs.extend([254, 255, 256, 257, 511, 512, 513, 1400]);
    szs.extend(65_530..65_550);
    szs.extend([65_570, 66_000, 131_100, 262_200]);
    for (cname, codec) in [
        ("fixed", FIXED),
        ("var", VAR),
        (
            "pad",
            McCodec {
                enc: Enc::Pad(40),
                dirty: true,
            },
        ),
        (
            "tiny",
            McCodec {
                enc: Enc::Tiny,
                dirty: true,
            },
        ),
    ] {
        let tiny = codec.enc == Enc::Tiny;
        let me = id(0, 0);
        let mut s = Sn::base(&format!("packet-sizes-{cname}"), Init::new(me, cfg()), WireMon);
        s.inits = Vec::new();
        let n = if tiny { 3 } else { 8 };
        for &z in &szs {
            let mut c = cfg();
            c.max_packet_size = nz(z);
            c.num_indirect_probes = nz(1);
            c.notify_down_members = true;
            c.max_transmissions = std::num::NonZeroU8::new(9).unwrap();
            let mut init = Init::new(me, c);
            init.codec = codec;
            init.handler.always = true;
            let mut pre = vec![Act::Apply(
                (1..=n)
                    .map(|x| {
                        up(
                            id(x, 0),
                            x as u16,
                            if x == 2 {
                                Suspect
                            } else if x == 5 {
                                Down
                            } else {
                                Alive
                            },
                        )
                    })
                    .collect(),
                true,
            )];
            // a probe in flight
            pre.push(Act::Timer(foca::Timer::ProbeRandomMember(0)));
            for (k, l) in [1usize, 2, 3, 7, 30, 200, 1000, 65_535, 65_536]
                .into_iter()
                .enumerate()
            {
                if l <= z {
                    let mut v = vec![7u8; l];
                    v[0] = k as u8;
                    pre.push(Act::AddB(v));
                }
            }
            s.inits.push((init, pre));
        }
        let (p, w) = (id(1, 0), id(3, 0));
        s.acts = vec![
            msg(p, MsgS::Announce).a(),
            msg(p, MsgS::Ping(Num::Abs(9))).a(),
            msg(p, MsgS::PingReq(IdS::Fix(w), Num::Abs(9))).a(),
            msg(p, MsgS::IndirectPing(IdS::Fix(w), Num::Abs(9))).a(),
            msg(p, MsgS::IndirectAck(IdS::Fix(w), Num::Abs(9))).a(),
            msg(p, MsgS::Gossip).ups(&[own(Inc::Own(0), Suspect)]).a(),
            msg(p, MsgS::Gossip).ups(&[own(Inc::Own(0), Down)]).a(),
            Act::Gossip,
            Act::Broadcast,
            Act::Announce(w),
            Act::Leave,
        ];
        if !tiny {
            // (a tiny header doesn't tell generations apart)
            s.acts.push(Act::ChangeId(IdS::OwnNext));
            s.acts.push(msg(id(5, 0), MsgS::Gossip).a());
        }
        s.cfgs = [1usize, 24, 70, 200, 70_000]
            .iter()
            .map(|&z| {
                let mut c = cfg();
                c.max_packet_size = nz(z);
                c.num_indirect_probes = nz(1);
                c
            })
            .collect();
        s.acts.extend((1..s.cfgs.len()).map(Act::SetCfg));
        s.tm = TMode::Any;
        s.depth = if t { 3 } else { 2 };
        s.max_states = if t { 1_500_000 } else { 60_000 };
        s.explore(r);
    }
}
pub fn c08(r: &mut Report) {
    for s in scopes(r, false) {
        with(s, Mirror::new(true)).explore(r);
    }
    accumulating(r);
}
/// AccumulatingRuntime against three plain queues: every sequence of effects and drains up to a
/// depth, partial drains included, whatever call the effects came from.
fn accumulating(r: &mut Report) {
    use foca::{AccumulatingRuntime, Notification, OwnedNotification, Runtime, Timer};
    use std::collections::VecDeque;
    const OPS: usize = 13;
    if r.only.is_some() {
        return;
    }
    let (a, b) = (id(1, 0), idk(1, 1, K_RENEW));
    let long = vec![7u8; 1400];
    let step = move |seq: &[usize]| -> Result<(), String> {
        let mut acc = AccumulatingRuntime::new();
        let mut ws: VecDeque<(Id, Vec<u8>)> = VecDeque::new();
        let mut wt: VecDeque<(Duration, Timer<Id>)> = VecDeque::new();
        let mut wn: VecDeque<OwnedNotification<Id>> = VecDeque::new();
        let mut kept = Vec::new();
        let t1 = Timer::ProbeRandomMember(3);
        let t2 = Timer::RemoveDown(b);
        for (n, &op) in seq.iter().enumerate() {
            match op {
                0..=3 => {
                    let (d, x): (Id, &[u8]) = match op {
                        0 => (a, b"x"),
                        1 => (b, b"x"),
                        2 => (a, &long),
                        _ => (a, b""),
                    };
                    // through a mutable reference too, which is a Runtime of its own
                    if n % 2 == 0 {
                        acc.send_to(d, x);
                    } else {
                        Runtime::send_to(&mut &mut acc, d, x);
                    }
                    ws.push_back((d, x.to_vec()));
                }
                4..=6 => {
                    let (t, m) = match op {
                        4 => (&t1, 20),
                        5 => (&t1, 10),
                        _ => (&t2, 20),
                    };
                    if n % 2 == 0 {
                        acc.submit_after(t.clone(), ms(m));
                    } else {
                        Runtime::submit_after(&mut &mut acc, t.clone(), ms(m));
                    }
                    wt.push_back((ms(m), t.clone()));
                }
                7..=9 => {
                    let (x, o) = match (op, n % 5) {
                        (7, _) => (Notification::MemberUp(&a), OwnedNotification::MemberUp(a)),
                        (8, _) => (Notification::Rename(&a, &b), OwnedNotification::Rename(a, b)),
                        (_, 0) => (Notification::Idle, OwnedNotification::Idle),
                        (_, 1) => (Notification::Active, OwnedNotification::Active),
                        (_, 2) => (Notification::Defunct, OwnedNotification::Defunct),
                        (_, 3) => (Notification::Rejoin(&b), OwnedNotification::Rejoin(b)),
                        _ => (Notification::MemberDown(&b), OwnedNotification::MemberDown(b)),
                    };
                    if n % 2 == 0 {
                        acc.notify(x);
                    } else {
                        Runtime::notify(&mut &mut acc, x);
                    }
                    wn.push_back(o);
                }
                10 => {
                    let g = acc.to_send();
                    let w = ws.pop_front();
                    if g.as_ref().map(|(d, x)| (*d, x.to_vec())) != w {
                        return Err(format!("to_send() yields {g:?}, expected {w:?}"));
                    }
                    if let (Some(g), Some(w)) = (g, w) {
                        kept.push((g.1, w.1));
                    }
                }
                11 => {
                    let (g, w) = (acc.to_schedule(), wt.pop_front());
                    if g != w {
                        return Err(format!("to_schedule() yields {g:?}, expected {w:?}"));
                    }
                }
                _ => {
                    let (g, w) = (acc.to_notify(), wn.pop_front());
                    if g != w {
                        return Err(format!("to_notify() yields {g:?}, expected {w:?}"));
                    }
                }
            }
            let total = ws.len() + wt.len() + wn.len();
            if acc.backlog() != total {
                return Err(format!("backlog() is {}, {total} effects undrained", acc.backlog()));
            }
        }
        let gs: Vec<_> = std::iter::from_fn(|| acc.to_send().map(|(d, x)| (d, x.to_vec()))).collect();
        let gt: Vec<_> = std::iter::from_fn(|| acc.to_schedule()).collect();
        let gn: Vec<_> = std::iter::from_fn(|| acc.to_notify()).collect();
        if ws != gs || wt != gt || wn != gn || acc.backlog() != 0 {
            return Err("draining yields something else than what was handed over".into());
        }
        if kept.iter().any(|(g, w)| g != w) {
            return Err("data already yielded changed afterwards".into());
        }
        Ok(())
    };
    let depth = if r.thorough() { 7 } else { 6 };
    let jobs: Vec<usize> = (0..OPS * OPS).collect();
    let mut n = 0u64;
    r.jobs(
        &jobs,
        |&j| {
            let mut seq = vec![0; depth];
            seq[0] = j / OPS;
            seq[1] = j % OPS;
            let mut k = 0u64;
            loop {
                if let Err(e) = step(&seq) {
                    return Err((
                        Viol {
                            sig: "acc-queue".into(),
                            msg: format!("AccumulatingRuntime: {e}"),
                        },
                        format!("effects 0-3 send_to, 4-6 submit_after, 7-9 notify, 10 to_send, 11 to_schedule, 12 to_notify: {seq:?}"),
                    ));
                }
                k += 1;
                let mut i = depth;
                while i > 2 {
                    i -= 1;
                    seq[i] += 1;
                    if seq[i] < OPS {
                        break;
                    }
                    seq[i] = 0;
                    if i == 2 {
                        return Ok(k);
                    }
                }
            }
        },
        |k| n += k,
    );
    r.transitions += n * depth as u64;
    r.validated += n;
    r.count("accumulating_runtime_sequences", n);
    r.scope_line(format!(
        "accumulating-runtime: all {n} sequences of {depth} effects and drains against plain queues"
    ));
}
pub fn c09(r: &mut Report) {
    for s in scopes(r, false) {
        with(s, AddrMon::default()).explore(r);
    }
}
pub fn c10(r: &mut Report) {
    for s in scopes(r, false) {
        with(s, IncMon::new()).explore(r);
    }
}
pub fn c19(r: &mut Report) {
    for s in scopes(r, false) {
        with(s, DstMon).explore(r);
    }
}
