//! C06: nothing a user, a timer or the network does makes an instance panic, overflow, abort or
//! hang. The deciding oracle is the call itself (unwinding is caught by `Sut::exec`, a call that
//! never returns by the watchdog, an abort by check.sh); check.sh runs all of this twice, with and
//! without debug assertions and overflow checks.
use super::node::*;
use crate::base::*;
use crate::explore::*;
use crate::sn::*;
use foca::State::{Alive, Down, Suspect};
use foca::{Config, Member, Message, Timer};
use std::num::{NonZeroU32, NonZeroU8, NonZeroUsize};
use std::time::Duration;

pub fn c06(r: &mut Report) {
    r.rule = "every transition is a call into the real crate (explored once with and once without debug assertions and overflow checks); a transition counts as good when the call returns".into();
    let t = r.thorough();
    constructors(r);
    hostile(r);
    tiny_strings(r);
    sizes(r);
    extremes(r);
    for s in crafted(t) {
        s.explore(r);
    }
    for mut s in scopes(r, true) {
        // the same environments the other monitors use, timers in any order and again
        s.name = format!("again-{}", s.name);
        s.tm = TMode::AnyDup;
        s.m = 2;
        s.depth = s.depth.min(if t { 5 } else { 4 });
        s.max_states = if t { 1_000_000 } else { 60_000 };
        s.explore(r);
    }
}

// ---------------------------------------------------------------- constructors

fn constructors(r: &mut Report) {
    if r.only.is_some() {
        return;
    }
    // cluster sizes: all of them (thorough), or every boundary and a dense prefix
    let mut jobs: Vec<(u32, u32)> = Vec::new();
    if r.thorough() {
        let step = 1u64 << 24;
        let mut a = 1u64;
        while a <= u32::MAX as u64 {
            let b = (a + step - 1).min(u32::MAX as u64);
            jobs.push((a as u32, b as u32));
            a = b + 1;
        }
    } else {
        let mut a = 1u32;
        while a < 2_000_000 {
            jobs.push((a, a + 99_999));
            a += 100_000;
        }
        for k in 21..=32u32 {
            let c = (1u64 << k).min(u32::MAX as u64) as u32;
            jobs.push((c.saturating_sub(1000), c.saturating_add(1000)));
        }
        let mut p = 10u64;
        while p < u32::MAX as u64 {
            jobs.push(((p as u32).saturating_sub(1000).max(1), (p as u32).saturating_add(1000)));
            p *= 10;
        }
    }
    let mut n = 0u64;
    r.jobs(
        &jobs,
        |&(a, b)| {
            let mut cur = a;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut k = 0u64;
                loop {
                    let z = NonZeroU32::new(cur).unwrap();
                    for c in [Config::new_lan(z), Config::new_wan(z)] {
                        // "succeed": what comes out must be usable
                        if c.suspect_to_down_after.is_zero() || c.probe_rtt >= c.probe_period {
                            return Err(cur);
                        }
                        k += 1;
                    }
                    if cur == b {
                        return Ok(k);
                    }
                    cur += 1;
                }
            }));
            match res {
                Ok(Ok(k)) => Ok(k),
                Ok(Err(n)) => Err((
                    Viol {
                        sig: "constructor-config".into(),
                        msg: format!("cluster size {n} yields an unusable configuration"),
                    },
                    format!("cluster_size={n}"),
                )),
                Err(_) => Err((
                    Viol {
                        sig: "constructor-panic".into(),
                        msg: format!(
                            "Config::new_lan/new_wan panics for cluster size {cur}: {}",
                            last_panic()
                        ),
                    },
                    format!("cluster_size={cur}"),
                )),
            }
        },
        |k| n += k,
    );
    let _ = Config::simple();
    r.transitions += n;
    r.validated += n;
    r.count("constructor_calls", n);
    r.scope_line(format!("constructors: {n} configurations built"));
}

// ---------------------------------------------------------------- helpers

struct Fail(Viol, String);
/// Perform calls one after another; the first one that panics fails.
fn drive(s: &mut Sut, codec: &McCodec, calls: &[Call], n: &mut u64) -> Result<Vec<Timer<Id>>, Fail> {
    let mut timers = Vec::new();
    for (i, c) in calls.iter().enumerate() {
        let out = with_rng(1, &[], || s.exec(c));
        *n += 1;
        if let Res::Panic(p) = &out.res {
            let mut tr = String::from("calls:\n");
            for c in &calls[..=i] {
                tr.push_str(&short(&fmt_call(c, codec)));
                tr.push('\n');
            }
            return Err(Fail(
                Viol {
                    sig: "panic".into(),
                    msg: format!("call panicked: {p}"),
                },
                tr,
            ));
        }
        // what a user does with the error
        if let Res::Err(e) = &out.res {
            let _ = format!("{e:?}");
        }
        timers.extend(out.timers().map(|t| t.0.clone()));
    }
    Ok(timers)
}
fn short(s: &str) -> String {
    if s.len() > 3000 {
        format!("{} ... ({} bytes)", &s[..3000.min(s.len())], s.len())
    } else {
        s.into()
    }
}
/// Calls that touch every subsystem, performed after the input under test so that damage it left
/// behind comes to light.
fn aftermath(codec: &McCodec, me: Id) -> Vec<Call> {
    let d = |src: Id, m: Message<Id>, u: &[Member<Id>]| {
        Call::Data(build(codec, src, 0, me, m, u, &[]))
    };
    vec![
        Call::Gossip,
        Call::Broadcast,
        d(id(2, 0), Message::Ping(1), &[]),
        d(id(2, 0), Message::Announce, &[]),
        Call::Timer(Timer::ProbeRandomMember(0)),
        Call::Timer(Timer::ProbeRandomMember(1)),
        d(id(1, 0), Message::Gossip, &[Member::new(me, 0, Suspect)]),
        Call::AddB(vec![9, 9, 9]),
        d(id(1, 0), Message::Gossip, &[mdown(id(2, 0))]),
        Call::Leave,
        Call::Reuse,
        Call::Gossip,
    ]
}
fn fold(r: &mut Report, name: &str, outs: Vec<u64>) {
    let n: u64 = outs.iter().sum();
    r.transitions += n;
    r.validated += n;
    r.states += outs.len() as u64;
    r.scope_line(format!("{name}: {} cases, {n} calls", outs.len()));
}
fn run_jobs<J: Sync>(
    r: &mut Report,
    name: &str,
    jobs: &[J],
    f: impl Fn(&J, &mut u64) -> Result<(), Fail> + Sync,
) {
    if r.only.is_some() {
        return;
    }
    let mut outs = Vec::new();
    r.jobs(
        jobs,
        |j| {
            let mut n = 0;
            match f(j, &mut n) {
                Ok(()) => Ok(n),
                Err(Fail(v, t)) => Err((v, t)),
            }
        },
        |n| outs.push(n),
    );
    fold(r, name, outs);
}

// ---------------------------------------------------------------- hostile bytes

const ME: Id = idk(0, 1, K_RENEW);
fn states(codec: McCodec) -> Vec<(Init, Vec<Call>)> {
    let mut c = cfg();
    c.notify_down_members = true;
    c.periodic_announce = pp(1300, 1);
    c.periodic_gossip = pp(700, 1);
    c.periodic_announce_to_down_members = pp(1700, 2);
    let mut i = Init::new(ME, c);
    i.codec = codec;
    let d = |src: Id, m: Message<Id>, u: &[Member<Id>], it: &[Vec<u8>]| {
        Call::Data(build(&codec, src, 0, ME, m, u, it))
    };
    let join = d(
        id(1, 0),
        Message::Gossip,
        &[Member::alive(id(2, 0)), mdown(id(3, 0))],
        &[vec![1, 1]],
    );
    let probe = Call::Timer(Timer::ProbeRandomMember(0));
    let mut v = vec![
        vec![],
        vec![join.clone()],
        vec![join.clone(), probe.clone()],
    ];
    for p in [id(1, 0), id(2, 0)] {
        v.push(vec![
            join.clone(),
            probe.clone(),
            Call::Timer(Timer::SendIndirectProbe {
                probed_id: p,
                token: 0,
            }),
        ]);
    }
    v.push(vec![join.clone(), Call::Leave]);
    v.push(vec![
        join.clone(),
        d(id(1, 0), Message::TurnUndead, &[], &[]),
    ]);
    v.push(vec![
        join.clone(),
        d(id(1, 0), Message::Gossip, &[mdown(id(2, 0))], &[]),
        d(id(2, 0), Message::Gossip, &[mdown(id(1, 0))], &[]),
        d(id(3, 1), Message::Gossip, &[mdown(id(1, 0))], &[]),
    ]);
    v.push(vec![
        join,
        d(
            id(1, 0),
            Message::Gossip,
            &[Member::new(ME, u16::MAX - 1, Suspect)],
            &[],
        ),
    ]);
    v.into_iter().map(|p| (i.clone(), p)).collect()
}
fn seeds(codec: &McCodec) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let w = id(2, 0);
    let n = 1;
    let msgs = [
        Message::Ping(n),
        Message::Ack(n),
        Message::PingReq {
            target: w,
            probe_number: n,
        },
        Message::IndirectPing {
            origin: w,
            probe_number: n,
        },
        Message::IndirectAck {
            target: w,
            probe_number: n,
        },
        Message::ForwardedAck {
            origin: w,
            probe_number: n,
        },
        Message::Announce,
        Message::Feed,
        Message::Gossip,
        Message::Broadcast,
        Message::TurnUndead,
    ];
    for m in &msgs {
        v.push(build(codec, id(1, 0), 0, ME, m.clone(), &[], &[]));
        v.push(build(
            codec,
            id(1, 0),
            1,
            ME,
            m.clone(),
            &[msusp(id(2, 0)), Member::alive(id(4, 0))],
            &[vec![1, 2, 3], vec![2]],
        ));
        v.push(build(
            codec,
            id(4, 0),
            0,
            ME,
            m.clone(),
            &[mdown(ME), mdown(id(2, 0))],
            &[vec![0xEE, 0]],
        ));
    }
    v
}
fn mutants(base: &[u8], thorough: bool, mut f: impl FnMut(&[u8]) -> Result<(), Fail>) -> Result<(), Fail> {
    f(base)?;
    // every truncation
    for n in 0..base.len() {
        f(&base[..n])?;
    }
    // every value of every byte
    let mut b = base.to_vec();
    for i in 0..b.len() {
        let o = b[i];
        for x in 0..=255u8 {
            if x != o {
                b[i] = x;
                f(&b)?;
            }
        }
        b[i] = o;
    }
    // every single insertion and deletion
    for i in 0..=base.len() {
        for x in [0u8, 1, 2, 3, 0x7f, 0x80, 0xff] {
            let mut b = base.to_vec();
            b.insert(i, x);
            f(&b)?;
        }
        if i < base.len() {
            let mut b = base.to_vec();
            b.remove(i);
            f(&b)?;
        }
    }
    // pairs of bytes
    let vals: &[u8] = if thorough {
        &[0, 1, 2, 3, 4, 0x0b, 0x7f, 0x80, 0xfe, 0xff]
    } else {
        &[0, 1, 0xff]
    };
    for i in 0..base.len() {
        for j in i + 1..base.len() {
            for &x in vals {
                for &y in vals {
                    let mut b = base.to_vec();
                    b[i] = x;
                    b[j] = y;
                    f(&b)?;
                }
            }
        }
    }
    Ok(())
}
fn hostile(r: &mut Report) {
    let t = r.thorough();
    for (name, codec) in [("fixed", FIXED), ("var", VAR)] {
        if name == "var" && !t {
            continue;
        }
        let st = states(codec);
        let sd = seeds(&codec);
        let mut jobs = Vec::new();
        for (i, _) in st.iter().enumerate() {
            for (j, _) in sd.iter().enumerate() {
                jobs.push((i, j));
            }
        }
        run_jobs(r, &format!("hostile-bytes-{name}"), &jobs, |&(i, j), n| {
            let (init, prefix) = &st[i];
            let mut s0 = Sut::new(init);
            drive(&mut s0, &codec, prefix, n)?;
            let d0 = s0.dump();
            let after = aftermath(&codec, ME);
            mutants(&sd[j], t, |b| {
                let mut s = s0.clone();
                let call = Call::Data(b.to_vec());
                let out = with_rng(1, &[], || s.exec(&call));
                *n += 1;
                let ctx = |f: Fail| {
                    let mut tr = String::new();
                    for c in prefix {
                        tr.push_str(&fmt_call(c, &codec));
                        tr.push('\n');
                    }
                    tr.push_str(&format!("then handle_data({})\n{}", hex(b), f.1));
                    Fail(f.0, tr)
                };
                if let Res::Panic(p) = &out.res {
                    return Err(ctx(Fail(
                        Viol {
                            sig: "panic".into(),
                            msg: format!("handle_data panicked: {p}"),
                        },
                        String::new(),
                    )));
                }
                // rejected without a trace: nothing more to learn
                if out.eff.is_empty() && s.dump() == d0 {
                    return Ok(());
                }
                let mut more: Vec<Call> = out
                    .timers()
                    .map(|t| Call::Timer(t.0.clone()))
                    .collect();
                more.extend(after.iter().cloned());
                drive(&mut s, &codec, &more, n).map_err(ctx)?;
                Ok(())
            })
        });
    }
}
/// With a one-byte header every byte string is a datagram: all of them up to 3 bytes, and all over
/// a small alphabet up to a length.
fn tiny_strings(r: &mut Report) {
    let t = r.thorough();
    let codec = McCodec {
        enc: Enc::Tiny,
        dirty: true,
    };
    let mut init = Init::new(id(0, 0), cfg());
    init.codec = codec;
    let up = |x: u8, m: Message<Id>| Call::Data(build(&codec, id(x, 0), 0, id(0, 0), m, &[], &[]));
    let prefixes = vec![
        vec![],
        vec![
            up(1, Message::Gossip),
            up(2, Message::Gossip),
            Call::Timer(Timer::ProbeRandomMember(0)),
        ],
        vec![up(1, Message::Gossip), Call::Leave],
    ];
    let mut jobs = Vec::new();
    for (i, _) in prefixes.iter().enumerate() {
        for first in 0..=255u8 {
            jobs.push((i, first));
        }
    }
    let menu: &[u8] = &[0, 1, 2, 3, 0xff];
    let len = if t { 8 } else { 6 };
    run_jobs(r, "tiny-header-strings", &jobs, |&(i, first), n| {
        let mut s0 = Sut::new(&init);
        drive(&mut s0, &codec, &prefixes[i], n)?;
        let mut go = |b: &[u8]| -> Result<(), Fail> {
            let mut s = s0.clone();
            drive(&mut s, &codec, &[Call::Data(b.to_vec())], n).map(|_| ())
        };
        go(&[])?;
        go(&[first])?;
        for a in 0..=255u8 {
            go(&[first, a])?;
            for b in 0..=255u8 {
                go(&[first, a, b])?;
            }
        }
        // longer strings over the menu
        for l in 4..=len {
            let mut idx = vec![0usize; l - 1];
            loop {
                let mut b = vec![first];
                b.extend(idx.iter().map(|&k| menu[k]));
                go(&b)?;
                let mut p = 0;
                while p < idx.len() {
                    idx[p] += 1;
                    if idx[p] < menu.len() {
                        break;
                    }
                    idx[p] = 0;
                    p += 1;
                }
                if p == idx.len() {
                    break;
                }
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- packet sizes

/// A fixed tour through every kind of call for every packet size (and after changing it).
fn sizes(r: &mut Report) {
    let t = r.thorough();
    let mut szs: Vec<usize> = (1..=if t { 400 } else { 130 }).collect();
    szs.extend([
        254, 255, 256, 257, 1399, 1400, 1401, 65_533, 65_534, 65_535, 65_536, 65_537, 65_538, 65_600,
        1 << 20,
        // "no limit"
        isize::MAX as usize,
        usize::MAX - 1,
        usize::MAX,
    ]);
    let to: Vec<Option<usize>> = vec![
        None,
        Some(1),
        Some(9),
        Some(20),
        Some(1400),
        Some(65_536),
        Some(1 << 20),
        Some(usize::MAX),
    ];
    let mut jobs = Vec::new();
    for &a in &szs {
        for &b in &to {
            for codec in [
                FIXED,
                VAR,
                McCodec {
                    enc: Enc::Tiny,
                    dirty: true,
                },
                McCodec {
                    enc: Enc::Moody,
                    dirty: false,
                },
                McCodec {
                    enc: Enc::Pad(90),
                    dirty: true,
                },
            ] {
                jobs.push((a, b, codec));
            }
        }
    }
    run_jobs(r, "packet-sizes", &jobs, |&(a, b, codec), n| {
        let mut c = cfg();
        c.max_packet_size = nz(a);
        c.notify_down_members = true;
        let mut init = Init::new(id(0, 0), c.clone());
        init.codec = codec;
        let me = init.me;
        let big = |k: usize| {
            let mut v = vec![7u8; k];
            v[0] = 100;
            v
        };
        let mut calls = vec![Call::Apply(
            (1..9).map(|x| Member::alive(id(x, 0))).collect(),
            true,
        )];
        calls.push(Call::Apply(vec![Member::alive(id(9, 0))], true));
        calls.push(Call::AddB(vec![1, 1]));
        for k in [1usize, 2, a.min(70_000), 65_535, 65_536, 70_000] {
            if k > 0 {
                calls.push(Call::AddB({
                    let mut v = big(k);
                    v[0] = (k % 251) as u8;
                    v
                }));
            }
        }
        calls.extend([Call::Broadcast, Call::Gossip, Call::Announce(id(3, 0))]);
        let mut tour = calls.clone();
        if let Some(b) = b {
            let mut c2 = c.clone();
            c2.max_packet_size = nz(b);
            tour.push(Call::SetCfg(Box::new(c2)));
            tour.extend(calls);
        }
        let d = |src: Id, m: Message<Id>, u: &[Member<Id>], it: &[Vec<u8>]| {
            Call::Data(build(&codec, src, 0, me, m, u, it))
        };
        tour.push(d(id(1, 0), Message::Announce, &[], &[]));
        tour.push(d(id(9, 0), Message::Announce, &[], &[]));
        tour.push(d(id(2, 0), Message::Ping(3), &[], &[]));
        tour.push(d(
            id(2, 0),
            Message::Broadcast,
            &[],
            &[vec![3, 3], big(200), big(65_535)],
        ));
        tour.push(d(id(2, 0), Message::Ping(3), &[Member::new(me, 0, Suspect)], &[]));
        tour.push(Call::Timer(Timer::ProbeRandomMember(0)));
        tour.push(Call::Timer(Timer::ProbeRandomMember(0)));
        for x in 1..=9 {
            tour.push(Call::Timer(Timer::SendIndirectProbe {
                probed_id: id(x, 0),
                token: 0,
            }));
        }
        tour.push(Call::Timer(Timer::ProbeRandomMember(0)));
        for x in 1..=9 {
            tour.push(Call::Timer(Timer::ChangeSuspectToDown {
                member_id: id(x, 0),
                incarnation: 0,
                token: 0,
            }));
        }
        for _ in 0..4 {
            tour.push(Call::Gossip);
        }
        tour.push(Call::ChangeId(id(0, 1)));
        tour.push(Call::ChangeId(id(9, 1)));
        tour.push(Call::Gossip);
        tour.push(Call::Leave);
        tour.push(Call::Reuse);
        let mut s = Sut::new_checked(&init).map_err(|p| {
            Fail(
                Viol {
                    sig: "constructor-panic".into(),
                    msg: format!("creating an instance with max_packet_size={a} panicked: {p}"),
                },
                String::new(),
            )
        })?;
        drive(&mut s, &codec, &tour, n)
            .map(|_| ())
            .map_err(|f| Fail(f.0, format!("max_packet_size={a} then {b:?}, codec {codec:?}\n{}", f.1)))
    });
}

/// Tens of thousands of members, datagrams of a megabyte, extreme settings.
fn extremes(r: &mut Report) {
    let many = |n: usize| -> Vec<Member<Id>> {
        // 3-byte identities: address, generation and kind make up the number; one record per
        // address means a u8 address is not enough, see Wide below
        (0..n).map(|x| Member::alive(id((x % 256) as u8, 0))).collect()
    };
    let mut jobs: Vec<(String, Config)> = Vec::new();
    let mut add = |name: &str, f: &dyn Fn(&mut Config)| {
        let mut c = cfg();
        f(&mut c);
        jobs.push((name.to_string(), c));
    };
    add("max-indirect", &|c| c.num_indirect_probes = NonZeroUsize::MAX);
    add("max-tx", &|c| c.max_transmissions = NonZeroU8::MAX);
    add("zero-durations", &|c| {
        c.probe_period = Duration::ZERO;
        c.probe_rtt = Duration::ZERO;
        c.suspect_to_down_after = Duration::ZERO;
        c.remove_down_after = Duration::ZERO;
    });
    add("max-durations", &|c| {
        c.probe_period = Duration::MAX;
        c.probe_rtt = Duration::MAX;
        c.suspect_to_down_after = Duration::MAX;
        c.remove_down_after = Duration::MAX;
    });
    add("max-periodic", &|c| {
        let p = foca::PeriodicParams {
            frequency: Duration::MAX,
            num_members: NonZeroUsize::MAX,
        };
        c.periodic_announce = Some(p.clone());
        c.periodic_gossip = Some(p.clone());
        c.periodic_announce_to_down_members = Some(p);
    });
    add("no-size-limit", &|c| c.max_packet_size = NonZeroUsize::MAX);
    add("megabyte", &|c| c.max_packet_size = nz(1 << 20));
    run_jobs(r, "extreme-settings", &jobs, |(name, c), n| {
        let init = Init::new(id(0, 0), c.clone());
        let mut s = Sut::new_checked(&init).map_err(|p| {
            Fail(
                Viol {
                    sig: "constructor-panic".into(),
                    msg: format!("creating an instance ({name}) panicked: {p}"),
                },
                String::new(),
            )
        })?;
        let d = |src: Id, m: Message<Id>, u: &[Member<Id>], it: &[Vec<u8>]| {
            Call::Data(build(&FIXED, src, 0, id(0, 0), m, u, it))
        };
        let mut calls = vec![
            Call::Apply(many(256), true),
            d(id(1, 0), Message::Gossip, &many(70_000)[..65_535], &[]),
            d(id(1, 0), Message::Feed, &many(65_535), &[vec![5; 65_535], vec![6; 65_535]]),
            d(id(1, 0), Message::Announce, &[], &[]),
            Call::Gossip,
            Call::Broadcast,
        ];
        calls.push(Call::Apply(
            (1..200).map(|x| mdown(id(x, 0))).collect(),
            true,
        ));
        calls.push(Call::Apply(
            (100..256usize).map(|x| Member::alive(id(x as u8, 1))).collect(),
            false,
        ));
        for _ in 0..3 {
            calls.push(Call::Timer(Timer::ProbeRandomMember(0)));
            for x in 100..=255 {
                calls.push(Call::Timer(Timer::SendIndirectProbe {
                    probed_id: id(x, 1),
                    token: 0,
                }));
            }
            calls.push(Call::Timer(Timer::PeriodicAnnounce(0)));
            calls.push(Call::Timer(Timer::PeriodicAnnounceDown(0)));
            calls.push(Call::Timer(Timer::PeriodicGossip(0)));
        }
        // identity churn beyond every counter's range
        for k in 0..600u32 {
            calls.push(Call::ChangeId(id(0, (k % 256) as u8)));
            calls.push(d(id(200, 1), Message::Ping(k as u8), &[], &[]));
            calls.push(Call::Timer(Timer::ProbeRandomMember(k as u8)));
        }
        for inc in [0u16, 1, u16::MAX - 1, u16::MAX, u16::MAX] {
            calls.push(Call::Apply(vec![Member::new(id(0, 87), inc, Suspect)], true));
        }
        calls.push(Call::Leave);
        for _ in 0..600 {
            calls.push(Call::Leave);
            calls.push(Call::Reuse);
            calls.push(Call::Gossip);
        }
        drive(&mut s, &FIXED, &calls, n)
            .map(|_| ())
            .map_err(|f| Fail(f.0, format!("{name}\n{}", f.1)))
    });
    wide(r);
}

// an instance with more members than a 16-bit count can tell about
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Wide(u32);
impl foca::Identity for Wide {
    type Addr = u32;
    fn renew(&self) -> Option<Self> {
        None
    }
    fn addr(&self) -> u32 {
        self.0
    }
    fn win_addr_conflict(&self, _a: &Self) -> bool {
        false
    }
}
#[derive(Clone, Copy)]
struct WideCodec;
impl foca::Codec<Wide> for WideCodec {
    type Error = CodecErr;
    fn encode_header(&mut self, h: &foca::Header<Wide>, mut b: impl bytes::BufMut) -> Result<(), CodecErr> {
        if b.remaining_mut() < 7 {
            return Err(CodecErr::Full);
        }
        b.put_slice(&h.src.0.to_be_bytes()[1..]);
        b.put_slice(&h.dst.0.to_be_bytes()[1..]);
        b.put_u8(match h.message {
            Message::Feed => 1,
            Message::Gossip => 2,
            Message::Announce => 3,
            _ => 4,
        });
        Ok(())
    }
    fn decode_header(&mut self, mut b: impl bytes::Buf) -> Result<foca::Header<Wide>, CodecErr> {
        if b.remaining() < 7 {
            return Err(CodecErr::Short);
        }
        let mut g = || {
            let mut x = 0u32;
            for _ in 0..3 {
                x = (x << 8) | b.get_u8() as u32;
            }
            Wide(x)
        };
        let (src, dst) = (g(), g());
        Ok(foca::Header {
            src,
            src_incarnation: 0,
            dst,
            message: match b.get_u8() {
                1 => Message::Feed,
                2 => Message::Gossip,
                3 => Message::Announce,
                _ => Message::Ping(0),
            },
        })
    }
    fn encode_member(&mut self, m: &Member<Wide>, mut b: impl bytes::BufMut) -> Result<(), CodecErr> {
        if b.remaining_mut() < 3 {
            return Err(CodecErr::Full);
        }
        b.put_slice(&m.id().0.to_be_bytes()[1..]);
        Ok(())
    }
    fn decode_member(&mut self, mut b: impl bytes::Buf) -> Result<Member<Wide>, CodecErr> {
        if b.remaining() < 3 {
            return Err(CodecErr::Short);
        }
        let mut x = 0u32;
        for _ in 0..3 {
            x = (x << 8) | b.get_u8() as u32;
        }
        Ok(Member::alive(Wide(x)))
    }
}
#[derive(Default)]
struct WideRt(Vec<Vec<u8>>);
impl foca::Runtime<Wide> for WideRt {
    fn notify(&mut self, _n: foca::Notification<'_, Wide>) {}
    fn send_to(&mut self, _to: Wide, data: &[u8]) {
        self.0.push(data.to_vec());
    }
    fn submit_after(&mut self, _e: Timer<Wide>, _a: Duration) {}
}
/// Feed and gossip of an instance knowing `members` others through datagrams of up to `size`
/// bytes; also checks that what is announced is what is in the datagram.
pub fn wide_run(members: u32, size: usize) -> Result<u64, Viol> {
    let res = std::panic::catch_unwind(|| {
        let mut c = cfg();
        c.max_packet_size = nz(size);
        let mut f = foca::Foca::new(Wide(1), c, McRng(0), WideCodec);
        let mut rt = WideRt::default();
        f.apply_many((2..2 + members).map(|x| Member::alive(Wide(x))), false, &mut rt)
            .map_err(|e| e.to_string())?;
        let mut d = vec![0, 0, 2, 0, 0, 1, 3];
        f.handle_data(&d, &mut rt).map_err(|e| e.to_string())?;
        d[6] = 2;
        // a gossip telling about as many members as fit the count
        let k = 65_535u32;
        if 9 + 3 * k as usize <= size {
            d.extend_from_slice(&(k as u16).to_be_bytes());
            for x in 0..k {
                d.extend_from_slice(&(100_000 + x).to_be_bytes()[1..]);
            }
            f.handle_data(&d, &mut rt).map_err(|e| e.to_string())?;
            f.gossip(&mut rt).map_err(|e| e.to_string())?;
        }
        let mut k = 0;
        for p in &rt.0 {
            let b = &p[7..];
            if p[6] == 3 || b.is_empty() {
                continue;
            }
            let n = u16::from_be_bytes([b[0], b[1]]) as usize;
            if b.len() != 2 + 3 * n {
                return Err(format!(
                    "datagram of {} bytes announces {n} members but carries {}",
                    p.len(),
                    (b.len() - 2) / 3
                ));
            }
            k += 1;
        }
        Ok(k)
    });
    match res {
        Ok(Ok(k)) => Ok(k),
        Ok(Err(e)) => Err(Viol {
            sig: "wide-malformed".into(),
            msg: format!("{members} members, packets of {size} bytes: {e}"),
        }),
        Err(_) => Err(Viol {
            sig: "panic".into(),
            msg: format!(
                "{members} members, packets of {size} bytes: {}",
                last_panic()
            ),
        }),
    }
}
fn wide(r: &mut Report) {
    let mut jobs = Vec::new();
    // apply_many is quadratic in the number of members: one big instance per size
    for members in if r.thorough() {
        vec![65_534u32, 65_536, 65_537, 66_000, 70_000]
    } else {
        vec![66_500u32]
    } {
        for size in [65_536usize * 5, 1 << 20] {
            jobs.push((members, size));
        }
    }
    run_jobs(r, "65k-members", &jobs, |&(m, z), n| match wide_run(m, z) {
        Ok(k) => {
            *n += k + 4;
            Ok(())
        }
        // what is in the datagrams is C07's business
        Err(v) if v.sig != "panic" => Ok(()),
        Err(v) => Err(Fail(v, format!("members={m} size={z}"))),
    });
}

/// C07: what such datagrams say is what they carry.
pub fn wide_packets(r: &mut Report) {
    let mut jobs = Vec::new();
    for members in [10u32, 1_000, 66_000] {
        for size in [1400usize, 65_536, 65_536 * 3, 65_536 * 5, 1 << 20] {
            if members > 10_000 && size < 65_536 * 3 {
                continue;
            }
            jobs.push((members, size));
        }
    }
    run_jobs(r, "65k-members", &jobs, |&(m, z), n| match wide_run(m, z) {
        Ok(k) => {
            *n += k + 4;
            Ok(())
        }
        Err(v) => Err(Fail(v, format!("members={m} size={z}"))),
    });
}

// ---------------------------------------------------------------- crafted timers, odd settings

fn timers(ids: &[Id], tokens: &[u8]) -> Vec<Act> {
    let mut v = Vec::new();
    for &k in tokens {
        v.push(Act::Timer(Timer::ProbeRandomMember(k)));
        v.push(Act::Timer(Timer::PeriodicAnnounce(k)));
        v.push(Act::Timer(Timer::PeriodicAnnounceDown(k)));
        v.push(Act::Timer(Timer::PeriodicGossip(k)));
        for &i in ids {
            v.push(Act::Timer(Timer::SendIndirectProbe {
                probed_id: i,
                token: k,
            }));
            for inc in [0, u16::MAX] {
                v.push(Act::Timer(Timer::ChangeSuspectToDown {
                    member_id: i,
                    incarnation: inc,
                    token: k,
                }));
            }
        }
    }
    for &i in ids {
        v.push(Act::Timer(Timer::RemoveDown(i)));
    }
    v
}
fn crafted(t: bool) -> Vec<Sn<NoMon>> {
    let mut v = Vec::new();
    // any timer at any time, including ones about the instance itself and future epochs
    for (k, name) in [
        (K_RENEW, "renewable"),
        (K_NONE, "fixed-id"),
        (K_LOSE, "renew-loses"),
        (K_MOVE, "renew-moves"),
        (K_WIN, "always-wins"),
        (K_NEVER, "never-wins"),
    ] {
        let mut c = cfg();
        c.notify_down_members = true;
        c.max_transmissions = NonZeroU8::new(1).unwrap();
        c.periodic_announce = pp(1300, 1);
        c.periodic_gossip = pp(700, 1);
        c.periodic_announce_to_down_members = pp(1700, 2);
        let me = idk(0, 3, k);
        let mut s = Sn::base(&format!("crafted-timers-{name}"), Init::new(me, c), NoMon);
        s.acts = timers(&[me, idk(0, 4, k), idk(1, 0, k)], &[0, 1]);
        s.acts.extend([
            msg(idk(1, 0, k), MsgS::Gossip).a(),
            msg(idk(1, 1, k), MsgS::Gossip).a(),
            msg(idk(2, 0, k), MsgS::Gossip)
                .ups(&[up(idk(1, 0, k), 0, Alive)])
                .a(),
            msg(idk(2, 0, k), MsgS::Gossip)
                .ups(&[own(Inc::Own(0), Suspect)])
                .a(),
            msg(idk(2, 0, k), MsgS::TurnUndead).a(),
            msg(idk(2, 0, k), MsgS::Ping(Num::Abs(1)))
                .ups(&[up(idk(1, 0, k), u16::MAX, Suspect)])
                .a(),
            msg(idk(2, 0, k), MsgS::Ping(Num::Abs(1)))
                .ups(&[
                    up(idk(1, 0, k), 0, Down),
                    Up(IdS::OwnNext, Inc::Abs(0), Alive),
                    own(Inc::Abs(u16::MAX), Suspect),
                ])
                .a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            Act::ChangeId(IdS::OwnNext),
            // taking over somebody else's address or identity
            Act::ChangeId(IdS::Fix(idk(1, 0, k))),
            Act::ChangeId(IdS::Fix(idk(1, 5, k))),
            Act::Apply(
                vec![
                    own(Inc::Own(0), Down),
                    up(idk(1, 0, k), 0, Alive),
                    own(Inc::Own(0), Suspect),
                    up(idk(1, 1, k), 0, Down),
                ],
                true,
            ),
        ]);
        s.acts.extend(api());
        s.acts.push(Act::Broadcast);
        s.acts.push(Act::Announce(me));
        s.tm = TMode::Off;
        s.m = 2;
        s.depth = if t { 5 } else { 4 };
        s.max_states = if t { 1_500_000 } else { 40_000 };
        v.push(s);
    }
    // identities as the crate bundles them for std's socket addresses: the address is the identity,
    // and asking one of them who wins a conflict panics
    {
        let mut c = cfg();
        c.notify_down_members = true;
        c.max_transmissions = NonZeroU8::new(2).unwrap();
        c.periodic_announce = pp(1300, 1);
        c.periodic_gossip = pp(700, 1);
        c.periodic_announce_to_down_members = pp(1700, 2);
        let p = |a: u8| idk(a, 0, K_PLAIN);
        let me = p(0);
        let mut acts = timers(&[me, p(1)], &[0, 1]);
        for inc in [0, 1, u16::MAX] {
            for st in [Alive, Suspect, Down] {
                acts.push(msg(p(2), MsgS::Gossip).ups(&[up(p(1), inc, st)]).a());
                acts.push(Act::Apply(vec![up(p(1), inc, st), up(p(2), 0, st)], inc == 1));
            }
        }
        for i in [Inc::Own(0), Inc::Own(1), Inc::Abs(u16::MAX)] {
            for st in [Alive, Suspect, Down] {
                acts.push(msg(p(2), MsgS::Ping(Num::Abs(1))).ups(&[own(i, st)]).a());
                acts.push(Act::Apply(vec![own(i, st), up(p(1), 1, st)], true));
            }
        }
        acts.extend([
            msg(p(1), MsgS::Gossip).a(),
            msg(p(1), MsgS::Gossip).inc(1).a(),
            msg(p(1), MsgS::Announce).a(),
            msg(p(1), MsgS::Feed).ups(&[up(p(2), 0, Alive), up(p(3), 0, Suspect)]).a(),
            msg(IdS::Own, MsgS::Gossip).a(),
            msg(p(2), MsgS::TurnUndead).a(),
            msg(IdS::OwnPrev, MsgS::Gossip).a(),
            msg(p(2), MsgS::Gossip).ups(&[Up(IdS::OwnPrev, Inc::Abs(0), Alive)]).a(),
            msg(p(2), MsgS::Gossip).ups(&[Up(IdS::OwnPrev, Inc::Abs(0), Down)]).a(),
            msg(p(2), MsgS::TurnUndead).to(IdS::OwnPrev).a(),
            msg(IdS::Pinged, MsgS::Ack(P)).a(),
            Act::ChangeId(IdS::Own),
            Act::ChangeId(IdS::Fix(p(1))),
            Act::ChangeId(IdS::Fix(p(3))),
            Act::Announce(me),
            Act::Announce(p(1)),
            Act::Broadcast,
        ]);
        acts.extend(api());
        let mut s = Sn::base("crafted-plain-address", Init::new(me, c), NoMon);
        s.acts = acts;
        s.tm = TMode::AnyDup;
        s.m = 2;
        s.depth = if t { 5 } else { 4 };
        s.max_states = if t { 1_500_000 } else { 60_000 };
        v.push(s);
    }
    // settings changed at any time
    {
        let mut c = cfg();
        c.notify_down_members = true;
        c.periodic_announce = pp(1300, 1);
        c.periodic_gossip = pp(700, 1);
        c.periodic_announce_to_down_members = pp(1700, 2);
        let mut cfgs = vec![c.clone()];
        let mut add = |f: &dyn Fn(&mut Config)| {
            let mut d = c.clone();
            f(&mut d);
            cfgs.push(d);
        };
        add(&|c| c.max_packet_size = nz(1));
        add(&|c| c.max_packet_size = nz(11));
        add(&|c| c.max_packet_size = nz(17));
        add(&|c| c.max_packet_size = nz(100_000));
        add(&|c| {
            c.num_indirect_probes = nz(1);
            c.max_transmissions = NonZeroU8::new(1).unwrap();
            c.periodic_announce = None;
            c.periodic_gossip = None;
        });
        add(&|c| {
            c.num_indirect_probes = NonZeroUsize::MAX;
            c.max_transmissions = NonZeroU8::MAX;
            c.suspect_to_down_after = Duration::MAX;
            c.remove_down_after = Duration::ZERO;
            c.max_packet_size = NonZeroUsize::MAX;
        });
        add(&|c| c.probe_period = ms(1));
        let n = cfgs.len();
        for (name, codec) in [
            ("fixed", FIXED),
            (
                "moody",
                McCodec {
                    enc: Enc::Moody,
                    dirty: true,
                },
            ),
        ] {
            let mut init = Init::new(idk(0, 1, K_RENEW), c.clone());
            init.codec = codec;
            let mut s = Sn::base(&format!("settings-{name}"), init, NoMon);
            s.cfgs = cfgs.clone();
            s.acts = (0..n).map(Act::SetCfg).collect();
            s.acts.extend([
                msg(id(1, 0), MsgS::Gossip)
                    .ups(&[up(id(2, 0), 0, Alive), up(id(9, 0), 0, Alive)])
                    .a(),
                msg(id(9, 0), MsgS::Ping(Num::Abs(1))).a(),
                msg(id(9, 0), MsgS::Announce).a(),
                msg(id(2, 0), MsgS::Announce).a(),
                msg(id(2, 0), MsgS::Ping(Num::Abs(1)))
                    .ups(&[up(id(1, 0), 0, Down), up(id(9, 0), 0, Down)])
                    .a(),
                msg(id(2, 0), MsgS::Gossip)
                    .ups(&[own(Inc::Own(0), Suspect)])
                    .a(),
                msg(id(2, 0), MsgS::TurnUndead).a(),
                msg(id(2, 0), MsgS::PingReq(IdS::Fix(id(9, 0)), Num::Abs(9))).a(),
                msg(id(2, 0), MsgS::Broadcast)
                    .items(&[&[1, 1, 1], &[2, 2]])
                    .a(),
                Act::AddB(vec![3; 60]),
                Act::AddB(vec![4; 70_000]),
                Act::Broadcast,
                Act::ChangeId(IdS::Fix(idk(9, 0, K_RENEW))),
            ]);
            s.acts.extend(api());
            s.tm = TMode::Any;
            s.m = 2;
            s.depth = if t { 5 } else { 4 };
            s.max_states = if t { 1_500_000 } else { 60_000 };
            v.push(s);
        }
    }
    v
}
fn mdown(i: Id) -> Member<Id> {
    Member::new(i, 0, Down)
}
fn msusp(i: Id) -> Member<Id> {
    Member::new(i, 0, Suspect)
}
