//! Monitors for timers, probing, dissemination and rejected input (C11-C13, C15-C17).
use crate::base::*;
use crate::explore::*;
use crate::mons::*;
use crate::sn::*;
use foca::{Config, Identity, Member, Message, OwnedNotification as N, State, Timer};
use std::collections::BTreeMap;
use std::sync::Arc;

/// Connection epochs of an instance: a new one starts with every Idle, Defunct and identity
/// change. Returns the epoch in force when each effect of the call happened.
/// a successful reuse, or an identity change: it may have happened although announcing it failed
fn renamed(c: &Ctx<'_>) -> bool {
    match c.call {
        Call::Reuse => c.out.ok(),
        Call::ChangeId(_) => c.out.ok() || c.o0.me != c.o1.me,
        _ => false,
    }
}
pub fn epochs(c: &Ctx<'_>, start: u64) -> (Vec<u64>, u64) {
    let mut e = start;
    if renamed(c) {
        e += 1;
    }
    let mut v = Vec::new();
    for x in &c.out.eff {
        if let Eff::Notify(N::Idle | N::Defunct | N::Rejoin(_)) = x {
            e += 1;
        }
        v.push(e);
    }
    (v, e)
}
/// the epoch token is a byte: timers that are a multiple of 256 epochs old pass for current ones
pub const WRAP: &str = "stale-timer-epoch-wrap";
fn no_effect(c: &Ctx<'_>) -> Result<(), String> {
    if !c.out.eff.is_empty() {
        return Err(format!(
            "effects {:?}",
            c.out
                .eff
                .iter()
                .map(|e| fmt_eff(e, c.codec()))
                .collect::<Vec<_>>()
        ));
    }
    if c.o0 != c.o1 {
        return Err(format!(
            "state change {:?} -> {:?}",
            c.o0.all.iter().map(fmt_m).collect::<Vec<_>>(),
            c.o1.all.iter().map(fmt_m).collect::<Vec<_>>()
        ));
    }
    if !c.out.ok() {
        return Err(format!("result {:?}", c.out.res));
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Default)]
pub struct SuspMon {
    epoch: u64,
    /// suspicion timers issued: timer, epoch, and what was suspected
    susp: Vec<(Timer<Id>, u64, Id, u16)>,
    /// what was known about the member when it was pinged last
    pinged: Option<(Id, u16)>,
}
impl Mon for SuspMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        // what may change
        for m in &c.o0.all {
            let now = c.o1.rec(m.id().addr);
            let gone = now.is_none();
            if m.state() == State::Down {
                if let Some(n) = now {
                    if n.id() == m.id() && n.state() != State::Down {
                        return viol("down-revived", format!("{} became {}", fmt_m(m), fmt_m(n)));
                    }
                }
            }
            if gone {
                let ok = m.state() == State::Down
                    && matches!(c.call, Call::Timer(Timer::RemoveDown(x)) if x == m.id());
                if !ok {
                    return viol(
                        "removed",
                        format!("{} forgotten by {}", fmt_m(m), fmt_call(c.call, c.codec())),
                    );
                }
            }
        }
        if let Call::Timer(Timer::RemoveDown(x)) = c.call {
            if c.o1
                .all
                .iter()
                .any(|m| m.id() == x && m.state() == State::Down)
            {
                return viol(
                    "not-forgotten",
                    format!("{x:?} still Down after its forget timer"),
                );
            }
            let keep: Vec<_> =
                c.o0.all
                    .iter()
                    .filter(|m| !(m.id() == x && m.state() == State::Down))
                    .collect();
            for m in keep {
                if c.o1.rec(m.id().addr) != Some(m) {
                    return viol(
                        "forget-other",
                        format!("forgetting {x:?} changed {}", fmt_m(m)),
                    );
                }
            }
        }
        // forgetting is scheduled
        for m in &c.o1.all {
            if m.state() == State::Down
                && c.o0
                    .rec(m.id().addr)
                    .is_none_or(|o| o.id() != m.id() || o.state() != State::Down)
            {
                let n = c
                    .out
                    .timers()
                    .filter(|(t, a)| {
                        matches!(t, Timer::RemoveDown(x) if x == m.id())
                            && *a == c.cfg.remove_down_after
                    })
                    .count();
                if n != 1 {
                    return viol(
                        "no-forget-timer",
                        format!("{} went down with {n} forget timers scheduled", fmt_m(m)),
                    );
                }
            }
        }
        // a forgotten identity may rejoin
        if let Call::Data(d) = c.call {
            let i = accept(c.codec(), c.cfg, c.o0, d);
            if let (Acc::Active, Some(h), true) = (&i.acc, &i.h, i.ups.is_empty()) {
                if c.o0.rec(h.src.addr).is_none() && !c.o1.is_active(&h.src) {
                    return viol(
                        "no-rejoin",
                        format!("unknown {:?} talks but is not active", h.src),
                    );
                }
            }
        }
        // timeouts
        if let Call::Timer(
            t @ Timer::ChangeSuspectToDown {
                member_id,
                incarnation,
                ..
            },
        ) = c.call
        {
            let Some((_, ep, who, inc)) = self.susp.iter().rev().find(|x| x.0 == *t).cloned()
            else {
                return viol("harness", "unknown suspicion timer");
            };
            if who != *member_id || inc != *incarnation {
                return viol(
                    "wrong-suspicion",
                    format!("suspected {who:?}@{inc} but the timeout is about {member_id:?}@{incarnation}"),
                );
            }
            let rec = c.o0.rec(who.addr);
            let live = ep == self.epoch
                && matches!(rec, Some(m) if *m.id() == who && m.incarnation() == inc && m.state() != State::Down);
            if live {
                match c.o1.rec(who.addr) {
                    Some(m) if *m.id() == who && m.state() == State::Down => {}
                    o => return viol(
                        "timeout-lost",
                        format!(
                            "unrefuted suspicion of {who:?}@{inc} timed out but the record is {:?}",
                            o.map(fmt_m)
                        ),
                    ),
                }
                if !c
                    .out
                    .notes()
                    .any(|n| matches!(n, N::MemberDown(x) if *x == who))
                {
                    return viol(
                        "no-memberdown",
                        format!("{who:?} declared Down without MemberDown"),
                    );
                }
                let mut told = false;
                for (_, p) in c.packets()? {
                    told |= p
                        .ups
                        .iter()
                        .flatten()
                        .any(|u| *u.id() == who && u.state() == State::Down);
                }
                told |= peek_backlog(c.post, c.codec(), c.o1, c.cfg1)
                    .iter()
                    .any(|u| *u.id() == who && u.state() == State::Down);
                if !told {
                    return viol(
                        "not-gossiped",
                        format!("{who:?} declared Down but the update is not pending"),
                    );
                }
                let tu: Vec<Id> = c
                    .packets()?
                    .iter()
                    .filter(|(_, p)| p.h.message == Message::TurnUndead)
                    .map(|(d, _)| *d)
                    .collect();
                let want: Vec<Id> = if c.cfg.notify_down_members {
                    vec![who]
                } else {
                    vec![]
                };
                if tu != want {
                    return viol(
                        "turnundead",
                        format!(
                            "declared {who:?} Down, TurnUndead sent to {tu:?}, expected {want:?}"
                        ),
                    );
                }
                for m in &c.o0.all {
                    if m.id().addr != who.addr && c.o1.rec(m.id().addr) != Some(m) {
                        return viol(
                            "timeout-other",
                            format!("timeout of {who:?} changed {}", fmt_m(m)),
                        );
                    }
                }
            } else if let Err(e) = no_effect(c) {
                if ep != self.epoch && (self.epoch - ep) % 256 == 0 {
                    return viol(
                        WRAP,
                        format!(
                            "timeout of {who:?}@{inc} was issued {} epochs ago yet has {e}",
                            self.epoch - ep
                        ),
                    );
                }
                let why = if ep != self.epoch {
                    "stale-epoch"
                } else {
                    match rec {
                        Some(m) if *m.id() == who && m.state() == State::Down => "already-down",
                        Some(m) if *m.id() == who => "refuted",
                        Some(_) => "other-identity",
                        None => "forgotten",
                    }
                };
                return viol(
                    format!("cancelled-timeout:{why}"),
                    format!(
                        "timeout of {who:?}@{inc} is {why} (record {:?}) yet it has {e}",
                        rec.map(fmt_m)
                    ),
                );
            }
        }
        // bookkeeping
        let (eps, e) = epochs(c, self.epoch);
        for (x, ep) in c.out.eff.iter().zip(&eps) {
            if let Eff::Timer {
                t:
                    t @ Timer::ChangeSuspectToDown {
                        member_id,
                        incarnation,
                        ..
                    },
                after,
            } = x
            {
                let truth = self.pinged.unwrap_or((*member_id, *incarnation));
                if *after != c.cfg.suspect_to_down_after {
                    return viol(
                        "timeout-delay",
                        format!("suspicion timeout scheduled after {after:?}"),
                    );
                }
                let v = (t.clone(), *ep, truth.0, truth.1);
                if !self.susp.contains(&v) {
                    self.susp.push(v);
                }
            }
        }
        self.epoch = e;
        for (dst, p) in c.packets()? {
            if let Message::Ping(_) = p.h.message {
                let inc = c.o1.rec(dst.addr).map_or(0, |m| m.incarnation());
                self.pinged = Some((dst, inc));
            }
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        let mut v: Vec<String> = self
            .susp
            .iter()
            .map(|(t, e, i, n)| format!("{t:?}{}{i:?}{n}", self.epoch - e))
            .collect();
        v.sort();
        h.dbg(&(v, self.pinged));
    }
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug)]
struct Round {
    target: Id,
    num: u8,
    inc: u16,
    acked: bool,
    asked: Vec<Id>,
    /// its indirect stage was reached
    stage: bool,
}
#[derive(Clone, Debug, Default)]
pub struct ProbeMon {
    round: Option<Round>,
}
impl Mon for ProbeMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let pk = c.packets()?;
        let codec = c.codec();
        let mut indata = None;
        if let Call::Data(d) = c.call {
            let i = accept(codec, c.cfg, c.o0, d);
            if i.acc == Acc::Active {
                indata = i.h.clone();
            }
        }
        if let (Some(h), Some(r)) = (&indata, self.round.as_mut()) {
            match &h.message {
                Message::Ack(n) if *n == r.num && h.src == r.target => r.acked = true,
                Message::ForwardedAck {
                    origin,
                    probe_number,
                } if *probe_number == r.num && r.asked.contains(&h.src) && *origin != c.o0.me => {
                    r.acked = true
                }
                _ => {}
            }
        }
        // answering
        let me_same = c.o0.me == c.o1.me;
        if let Some(h) = &indata {
            let able = me_same
                && c.o1.is_active(&h.src)
                && !c.post.peek_undead()
                && !matches!(c.out.res, Res::Err(ErrK::Encode(_)));
            let want: Option<(Id, Message<Id>)> = match &h.message {
                Message::Ping(n) => Some((h.src, Message::Ack(*n))),
                Message::PingReq {
                    target,
                    probe_number,
                } if *target != c.o1.me => Some((
                    *target,
                    Message::IndirectPing {
                        origin: h.src,
                        probe_number: *probe_number,
                    },
                )),
                Message::IndirectPing {
                    origin,
                    probe_number,
                } if *origin != c.o1.me => Some((
                    h.src,
                    Message::IndirectAck {
                        target: *origin,
                        probe_number: *probe_number,
                    },
                )),
                Message::IndirectAck {
                    target,
                    probe_number,
                } if *target != c.o1.me => Some((
                    *target,
                    Message::ForwardedAck {
                        origin: h.src,
                        probe_number: *probe_number,
                    },
                )),
                _ => None,
            };
            if let (Some((dst, m)), true) = (&want, able) {
                let n = pk
                    .iter()
                    .filter(|(d, p)| d == dst && p.h.message == *m)
                    .count();
                if n != 1 {
                    return viol(
                        "no-answer",
                        format!(
                            "{:?} from {:?} must cause exactly one {m:?} to {dst:?}, saw {n}",
                            h.message, h.src
                        ),
                    );
                }
            }
            let selfish = me_same
                && matches!(&h.message,
                    Message::PingReq { target: x, .. } | Message::IndirectAck { target: x, .. } if *x == c.o1.me);
            if selfish && c.out.ok() && able {
                return viol(
                    "self-relay",
                    format!(
                        "{:?} naming the instance itself was not rejected",
                        h.message
                    ),
                );
            }
        }
        for (dst, p) in &pk {
            let legit = match &p.h.message {
                Message::Ack(n) => {
                    matches!(&indata, Some(h) if h.message == Message::Ping(*n) && h.src == *dst)
                }
                Message::IndirectPing {
                    origin,
                    probe_number,
                } => {
                    matches!(&indata,
                    Some(h) if h.src == *origin && h.message == Message::PingReq { target: *dst, probe_number: *probe_number })
                        && *dst != c.o1.me
                }
                Message::IndirectAck {
                    target,
                    probe_number,
                } => matches!(&indata,
                    Some(h) if h.src == *dst && h.message == Message::IndirectPing { origin: *target, probe_number: *probe_number }),
                Message::ForwardedAck {
                    origin,
                    probe_number,
                } => {
                    matches!(&indata,
                    Some(h) if h.src == *origin && h.message == Message::IndirectAck { target: *dst, probe_number: *probe_number })
                        && *dst != c.o1.me
                }
                Message::PingReq { .. } => {
                    matches!(c.call, Call::Timer(Timer::SendIndirectProbe { .. }))
                }
                _ => true,
            };
            if !legit {
                return viol(
                    "misrouted",
                    format!(
                        "{:?} sent to {dst:?} upon {}",
                        p.h.message,
                        fmt_call(c.call, codec)
                    ),
                );
            }
        }
        // indirect stage
        if let Call::Timer(Timer::SendIndirectProbe { probed_id, .. }) = c.call {
            let reqs: Vec<_> = pk
                .iter()
                .filter(|(_, p)| matches!(p.h.message, Message::PingReq { .. }))
                .collect();
            if let Some(r) = self.round.as_mut() {
                if r.target == *probed_id {
                    r.stage = true;
                }
            }
            if !reqs.is_empty() {
                let Some(r) = self.round.as_mut() else {
                    return viol("stray-pingreq", "PingReq sent without a probe round");
                };
                if r.acked {
                    return viol(
                        "pingreq-acked",
                        format!("PingReq about {:?} although its Ack arrived", r.target),
                    );
                }
                if !c.o0.is_active(&r.target) {
                    return viol(
                        "pingreq-inactive",
                        format!("PingReq about {:?} which is not active", r.target),
                    );
                }
                if reqs.len() > c.cfg.num_indirect_probes.get() {
                    return viol("pingreq-many", format!("{} PingReq sent", reqs.len()));
                }
                for (dst, p) in &reqs {
                    let Message::PingReq {
                        target,
                        probe_number,
                    } = &p.h.message
                    else {
                        continue;
                    };
                    if *target != r.target || *probe_number != r.num {
                        return viol(
                            "pingreq-what",
                            format!(
                                "PingReq about {target:?}#{probe_number}, probing {:?}#{}",
                                r.target, r.num
                            ),
                        );
                    }
                    if *dst == r.target || !c.o0.is_active(dst) || r.asked.contains(dst) {
                        return viol(
                            "pingreq-who",
                            format!("PingReq about {target:?} sent to {dst:?}"),
                        );
                    }
                    r.asked.push(*dst);
                }
            }
        }
        // end of the round
        let is_probe = matches!(c.call, Call::Timer(Timer::ProbeRandomMember(_)));
        let pings: Vec<(Id, u8)> = pk
            .iter()
            .filter_map(|(d, p)| {
                if let Message::Ping(n) = p.h.message {
                    Some((*d, n))
                } else {
                    None
                }
            })
            .collect();
        let effective = is_probe
            && (!pings.is_empty()
                || c.out
                    .timers()
                    .any(|(t, _)| matches!(t, Timer::ProbeRandomMember(_))));
        if effective {
            if let Some(r) = self.round.take() {
                if c.out.ok() && r.stage {
                    let r0 = c.o0.rec(r.target.addr);
                    let r1 = c.o1.rec(r.target.addr);
                    let susp: Vec<_> = c
                        .out
                        .timers()
                        .filter(|(t, _)| matches!(t, Timer::ChangeSuspectToDown { .. }))
                        .collect();
                    let qualifies = matches!(r0, Some(m) if *m.id() == r.target && m.state() != State::Down && m.incarnation() <= r.inc);
                    if !r.acked && qualifies {
                        match r1 {
                            Some(m)
                                if *m.id() == r.target
                                    && m.state() == State::Suspect
                                    && m.incarnation() == r.inc => {}
                            o => return viol(
                                "false-success",
                                format!(
                                    "round about {:?}@{} got no evidence but the record is {:?}",
                                    r.target,
                                    r.inc,
                                    o.map(fmt_m)
                                ),
                            ),
                        }
                        let ok = susp.len() == 1
                            && susp[0].1 == c.cfg.suspect_to_down_after
                            && matches!(susp[0].0, Timer::ChangeSuspectToDown { member_id, incarnation, .. }
                                if *member_id == r.target && *incarnation == r.inc);
                        if !ok {
                            return viol(
                                "suspicion-timer",
                                format!("{:?}@{} suspected with timers {susp:?}", r.target, r.inc),
                            );
                        }
                    } else {
                        if r0 != r1 {
                            return viol(
                                if r.acked {
                                    "false-failure"
                                } else {
                                    "bad-suspicion"
                                },
                                format!(
                                    "round about {:?}@{} (acked: {}) changed {:?} to {:?}",
                                    r.target,
                                    r.inc,
                                    r.acked,
                                    r0.map(fmt_m),
                                    r1.map(fmt_m)
                                ),
                            );
                        }
                        if r.acked && !susp.is_empty() {
                            return viol(
                                "false-failure",
                                format!("successful round about {:?} scheduled {susp:?}", r.target),
                            );
                        }
                    }
                }
            }
            if let Some((target, num)) = pings.first() {
                let inc = c.o1.rec(target.addr).map_or(0, |m| m.incarnation());
                self.round = Some(Round {
                    target: *target,
                    num: *num,
                    inc,
                    acked: false,
                    asked: vec![],
                    stage: false,
                });
            }
        }
        if renamed(c)
            || c.out
                .notes()
                .any(|n| matches!(n, N::Idle | N::Defunct | N::Rejoin(_)))
        {
            self.round = None;
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        h.dbg(&self.round);
    }
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Default)]
pub struct EpochMon {
    epoch: u64,
    active: bool,
    out: Vec<(Timer<Id>, u64)>,
    /// timers are delivered in deadline order
    pub ordered: bool,
    /// datagrams may fail to encode
    pub enc: bool,
    /// remember delivered timers too (deduplicated, the latest 24)
    pub keep: bool,
    issued: Vec<(Timer<Id>, u64)>,
}
fn recurring(t: &Timer<Id>) -> Option<usize> {
    match t {
        Timer::ProbeRandomMember(_) => Some(0),
        Timer::PeriodicAnnounce(_) => Some(1),
        Timer::PeriodicGossip(_) => Some(2),
        Timer::PeriodicAnnounceDown(_) => Some(3),
        _ => None,
    }
}
const LOOPS: [&str; 4] = [
    "probe",
    "periodic_announce",
    "periodic_gossip",
    "periodic_announce_to_down_members",
];
impl EpochMon {
    pub fn new(ordered: bool) -> Self {
        EpochMon {
            ordered,
            ..Default::default()
        }
    }
    /// timers whose epoch is over (forget-timers aside)
    pub fn stale(&self) -> Vec<Timer<Id>> {
        (if self.keep { &self.issued } else { &self.out })
            .iter()
            .filter(|(t, e)| *e < self.epoch && !matches!(t, Timer::RemoveDown(_)))
            .map(|x| x.0.clone())
            .collect()
    }
    /// those of them that are a multiple of 256 epochs old
    pub fn wrapped(&self) -> Vec<Timer<Id>> {
        (if self.keep { &self.issued } else { &self.out })
            .iter()
            .filter(|(t, e)| {
                *e < self.epoch
                    && (self.epoch - e) % 256 == 0
                    && !matches!(t, Timer::RemoveDown(_))
            })
            .map(|x| x.0.clone())
            .collect()
    }
    pub fn track(&mut self, c: &Ctx<'_>) {
        if let Call::Timer(t) = c.call {
            if let Some(k) = self.out.iter().position(|x| x.0 == *t) {
                self.out.remove(k);
            }
        }
        if renamed(c) {
            self.active = false;
        }
        let (eps, e) = epochs(c, self.epoch);
        for (x, ep) in c.out.eff.iter().zip(&eps) {
            match x {
                Eff::Timer { t, .. } => {
                    self.out.push((t.clone(), *ep));
                    let forget = matches!(t, Timer::RemoveDown(_));
                    if self.keep && !forget && !self.issued.contains(&(t.clone(), *ep)) {
                        self.issued.push((t.clone(), *ep));
                        if self.issued.len() > 24 {
                            self.issued.remove(0);
                        }
                    }
                }
                Eff::Notify(N::Active) => self.active = true,
                Eff::Notify(N::Idle | N::Defunct | N::Rejoin(_)) => self.active = false,
                _ => {}
            }
        }
        self.epoch = e;
    }
}
impl Mon for EpochMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        if let Call::Timer(t) = c.call {
            let Some((_, ep)) = self.out.iter().find(|x| x.0 == *t).cloned() else {
                return viol("harness", "unknown timer");
            };
            if ep < self.epoch && !matches!(t, Timer::RemoveDown(_)) {
                if let Err(e) = no_effect(c) {
                    return viol(
                        "stale-timer",
                        format!(
                            "{t:?} was issued {} epochs ago yet has {e}",
                            self.epoch - ep
                        ),
                    );
                }
            }
            match &c.out.res {
                Res::Ok | Res::OkBool(_) => {}
                Res::Err(ErrK::Encode(_)) if self.enc => {}
                Res::Err(ErrK::IncompleteProbeCycle) if !self.ordered => {
                    // probing resumes: see the loop count below; the new round has begun
                    if !c
                        .packets()?
                        .iter()
                        .any(|(_, p)| matches!(p.h.message, Message::Ping(_)))
                    {
                        return viol(
                            "not-resumed",
                            "IncompleteProbeCycle did not restart probing",
                        );
                    }
                }
                Res::Err(e) => {
                    return viol("timer-error", format!("handle_timer({t:?}) returned {e:?}"))
                }
                Res::Panic(_) => {}
            }
        }
        self.track(c);
        let mut n = [0usize; 4];
        for (t, ep) in &self.out {
            if let (Some(k), true) = (recurring(t), *ep == self.epoch) {
                n[k] += 1;
            }
        }
        let enabled = [
            true,
            c.cfg1.periodic_announce.is_some(),
            c.cfg1.periodic_gossip.is_some(),
            c.cfg1.periodic_announce_to_down_members.is_some(),
        ];
        for k in 0..4 {
            let ok = if !self.active {
                n[k] == 0
            } else if enabled[k] {
                n[k] == 1
            } else {
                n[k] <= 1
            };
            if !ok {
                return viol(
                    format!("loop-{}", LOOPS[k]),
                    format!(
                        "{} outstanding {} timers while {}",
                        n[k],
                        LOOPS[k],
                        if self.active { "active" } else { "not active" }
                    ),
                );
            }
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        let mut v: Vec<String> = self
            .out
            .iter()
            .map(|(t, e)| format!("{t:?}{}", self.epoch - e))
            .collect();
        v.sort();
        h.dbg(&(v, self.active));
        if self.keep {
            let mut v: Vec<String> = self
                .issued
                .iter()
                .filter(|x| x.1 < self.epoch)
                .map(|(t, e)| format!("{t:?}{}", self.epoch - e))
                .collect();
            v.sort();
            h.dbg(&v);
        }
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug)]
struct Pend {
    m: Member<Id>,
    len: usize,
    rem: usize,
}
#[derive(Clone, Debug, Default)]
pub struct BacklogMon {
    pend: BTreeMap<u8, Pend>,
}
impl BacklogMon {
    fn add(&mut self, c: &Ctx<'_>, m: Member<Id>) {
        let len = c.codec().enc_member(&m).len();
        self.pend.insert(
            m.id().addr,
            Pend {
                m,
                len,
                rem: c.cfg.max_transmissions.get() as usize,
            },
        );
    }
}
impl Mon for BacklogMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        // accepted changes
        if !matches!(c.call, Call::Apply(_, false)) {
            for m in &c.o1.all {
                if c.o0.rec(m.id().addr) != Some(m) {
                    self.add(c, m.clone());
                }
            }
        }
        let undead0 = c.pre.peek_undead();
        match c.call {
            Call::ChangeId(_) if c.out.ok() && !undead0 => {
                self.add(c, Member::new(c.o0.me, 0, State::Down))
            }
            Call::Leave => self.add(c, Member::new(c.o0.me, 0, State::Down)),
            _ => {}
        }
        let mut old = c.o0.me;
        let mut dead = undead0;
        for n in c.out.notes() {
            match n {
                N::Rejoin(x) => {
                    if !dead {
                        self.add(c, Member::new(old, 0, State::Down));
                    }
                    dead = false;
                    old = *x;
                }
                N::Defunct => dead = true,
                _ => {}
            }
        }
        // transmissions
        let max = c.cfg.max_packet_size.get();
        for (dst, p) in c.packets()? {
            if !piggybacks(&p.h.message) || p.h.message == Message::Feed {
                if let (Some(u), true) = (&p.ups, p.h.message != Message::Feed) {
                    if !u.is_empty() {
                        return viol(
                            "updates-where-none",
                            format!("{:?} to {dst:?} carries updates", p.h.message),
                        );
                    }
                }
                continue;
            }
            let cap = max.saturating_sub(p.hdr_len + 2);
            let mut inc: Vec<u8> = Vec::new();
            for u in p.ups.iter().flatten() {
                match self.pend.get(&u.id().addr) {
                    None => {
                        return viol("not-pending", format!("{:?} to {dst:?} carries {} which is not pending (sent too often, superseded or never accepted)", p.h.message, fmt_m(u)))
                    }
                    Some(x) if x.m != *u => {
                        return viol("not-latest", format!("{:?} to {dst:?} carries {} but the latest is {}", p.h.message, fmt_m(u), fmt_m(&x.m)))
                    }
                    _ => {}
                }
                if inc.contains(&u.id().addr) {
                    return viol(
                        "twice",
                        format!("{:?} to {dst:?} carries {} twice", p.h.message, fmt_m(u)),
                    );
                }
                inc.push(u.id().addr);
            }
            for (a, x) in &self.pend {
                if inc.contains(a) {
                    continue;
                }
                let used: usize = inc.iter().map(|i| &self.pend[i]).map(|y| y.len).sum();
                if used + x.len <= cap {
                    return viol(
                        "omitted",
                        format!(
                            "{:?} to {dst:?} omits {} ({} bytes) with {} bytes left",
                            p.h.message,
                            fmt_m(&x.m),
                            x.len,
                            cap - used
                        ),
                    );
                }
                let ahead: usize = inc
                    .iter()
                    .map(|i| &self.pend[i])
                    .filter(|y| y.rem >= x.rem)
                    .map(|y| y.len)
                    .sum();
                if ahead + x.len <= cap {
                    return viol(
                        "precedence",
                        format!(
                            "{:?} to {dst:?} omits {} ({} transmissions left) in favour of {:?}",
                            p.h.message,
                            fmt_m(&x.m),
                            x.rem,
                            inc.iter()
                                .map(|i| (fmt_m(&self.pend[i].m), self.pend[i].rem))
                                .collect::<Vec<_>>()
                        ),
                    );
                }
            }
            for a in inc {
                let e = self.pend.get_mut(&a).unwrap();
                e.rem -= 1;
                if e.rem == 0 {
                    self.pend.remove(&a);
                }
            }
        }
        if self.pend.len() != c.o1.upd {
            return viol(
                "backlog",
                format!(
                    "updates_backlog() is {}, accounting says {:?}",
                    c.o1.upd,
                    self.pend
                        .values()
                        .map(|x| (fmt_m(&x.m), x.rem))
                        .collect::<Vec<_>>()
                ),
            );
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        h.dbg(&self.pend);
    }
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Default)]
pub struct CustomMon {
    pend: Vec<(Key, Vec<u8>, usize)>,
}
impl CustomMon {
    fn take(&mut self, c: &Ctx<'_>, k: usize) {
        let (data, _, r) = &c.out.hlog[k];
        if let HRes::Accepted(k) = r {
            self.pend.retain(|p| !key_inval(k, &p.0));
            self.pend.push((
                k.clone(),
                data.clone(),
                c.cfg.max_transmissions.get() as usize,
            ));
        }
    }
}
impl Mon for CustomMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let handler = &c.init.handler;
        // what the handler must have seen
        match c.call {
            Call::Data(d) => {
                let i = accept(c.codec(), c.cfg, c.o0, d);
                if i.acc == Acc::Active {
                    let (items, _) = items_of(&i.tail);
                    let src = i.h.as_ref().map(|h| h.src);
                    for (k, (data, from, _)) in c.out.hlog.iter().enumerate() {
                        if items.get(k) != Some(data) {
                            return viol(
                                "handler-data",
                                format!(
                                    "handler saw {} as item {k}, sent were {:?}",
                                    hex(data),
                                    items.iter().map(|x| hex(x)).collect::<Vec<_>>()
                                ),
                            );
                        }
                        if *from != src {
                            return viol(
                                "handler-sender",
                                format!("handler told sender {from:?}, was {src:?}"),
                            );
                        }
                    }
                    // (or something else failed before all were read)
                    let stopped = matches!(c.out.hlog.last(), Some((_, _, HRes::Err)))
                        || matches!(c.out.res, Res::Err(ErrK::Encode(_)));
                    if c.out.hlog.len() != items.len() && !stopped {
                        return viol(
                            "handler-missed",
                            format!(
                                "{} items sent, handler saw {}",
                                items.len(),
                                c.out.hlog.len()
                            ),
                        );
                    }
                } else if !c.out.hlog.is_empty() {
                    return viol(
                        "handler-unexpected",
                        "handler called for a discarded datagram",
                    );
                }
            }
            Call::AddB(d) => {
                for (data, from, _) in &c.out.hlog {
                    if data != d || from.is_some() {
                        return viol(
                            "handler-local",
                            format!("add_broadcast gave the handler {} from {from:?}", hex(data)),
                        );
                    }
                }
                if c.out.hlog.len() > 1 {
                    return viol(
                        "handler-local",
                        "add_broadcast called the handler more than once",
                    );
                }
                let acc = matches!(c.out.hlog.first(), Some((_, _, HRes::Accepted(_))));
                if c.out.res == Res::OkBool(true) && !acc {
                    return viol(
                        "add-result",
                        "add_broadcast reported success for an item not accepted",
                    );
                }
                if acc && c.out.res != Res::OkBool(true) {
                    return viol(
                        "add-result",
                        format!("accepted item, add_broadcast returned {:?}", c.out.res),
                    );
                }
            }
            _ if !c.out.hlog.is_empty() => return viol("handler-unexpected", "handler called"),
            _ => {}
        }
        let denied = |x: &Id| (handler.deny >> (x.addr & 31)) & 1 == 1;
        let mut dsts: Vec<Id> = Vec::new();
        // items count from the moment the handler takes them
        let mut taken = 0;
        for (n, (dst, p)) in c.packets()?.into_iter().enumerate() {
            while taken < c.out.hlog.len() && c.out.hpos.get(taken).is_none_or(|x| *x <= n) {
                self.take(c, taken);
                taken += 1;
            }
            if let Call::Broadcast = c.call {
                if p.h.message != Message::Broadcast {
                    return viol(
                        "broadcast-kind",
                        format!("broadcast() sent {:?}", p.h.message),
                    );
                }
                if p.ups.is_some() {
                    return viol("broadcast-updates", "broadcast() sent member updates");
                }
                if !c.o0.is_active(&dst) || denied(&dst) || dsts.contains(&dst) {
                    return viol("broadcast-dst", format!("broadcast() sent to {dst:?}"));
                }
                dsts.push(dst);
                if dsts.len() > c.cfg.num_indirect_probes.get() {
                    return viol("broadcast-many", format!("broadcast() sent to {dsts:?}"));
                }
                if self.pend.is_empty() {
                    return viol(
                        "broadcast-drained",
                        format!("broadcast() sent to {dst:?} with an empty backlog"),
                    );
                }
            } else if p.h.message == Message::Broadcast {
                return viol(
                    "stray-broadcast",
                    format!("Broadcast sent upon {}", fmt_call(c.call, c.codec())),
                );
            }
            if !p.items.is_empty() && !may_carry_items(&p.h.message) {
                return viol(
                    "items-where-none",
                    format!("{:?} carries custom items", p.h.message),
                );
            }
            if !p.items.is_empty() && denied(&dst) {
                return viol(
                    "denied",
                    format!("custom items sent to {dst:?} although the handler said no"),
                );
            }
            let mut used: Vec<usize> = Vec::new();
            for it in &p.items {
                // among identical items: the one with most transmissions left
                let k = (0..self.pend.len())
                    .filter(|k| !used.contains(k) && self.pend[*k].1 == *it)
                    .max_by_key(|k| self.pend[*k].2);
                match k {
                    Some(k) => used.push(k),
                    None => {
                        return viol(
                            "item-not-pending",
                            format!("{:?} to {dst:?} carries item {} which is not pending (sent too often, invalidated, altered or repeated)", p.h.message, hex(it)),
                        )
                    }
                }
            }
            for k in &used {
                self.pend[*k].2 -= 1;
            }
            self.pend.retain(|x| x.2 > 0);
        }
        (taken..c.out.hlog.len()).for_each(|k| self.take(c, k));
        if c.o1.cus != self.pend.len() {
            return viol(
                "custom-backlog",
                format!(
                    "custom_broadcast_backlog() is {}, accounting says {:?}",
                    c.o1.cus,
                    self.pend
                        .iter()
                        .map(|x| (hex(&x.1[..x.1.len().min(8)]), x.2))
                        .collect::<Vec<_>>()
                ),
            );
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        let mut v: Vec<String> = self.pend.iter().map(|x| format!("{x:?}")).collect();
        v.sort();
        h.dbg(&v);
    }
}

// ------------------------------------------------------------------ C17

/// Inserts every rejected input at every state, and runs every call twice.
#[derive(Clone)]
pub struct TraceMon {
    pub ep: EpochMon,
    first: bool,
    /// continuation used to tell two states apart when their dumps differ
    pub probe: Arc<Vec<Act>>,
    pub deep: usize,
    /// states already subjected to rejected inputs
    done: Arc<std::sync::Mutex<std::collections::HashSet<u128>>>,
    pub checked: Arc<std::sync::atomic::AtomicU64>,
    pub twins: Arc<std::sync::atomic::AtomicU64>,
}
impl TraceMon {
    pub fn new(probe: Vec<Act>, deep: usize) -> Self {
        TraceMon {
            ep: EpochMon {
                keep: true,
                ..EpochMon::new(false)
            },
            first: true,
            probe: Arc::new(probe),
            deep,
            done: Default::default(),
            checked: Default::default(),
            twins: Default::default(),
        }
    }
    fn differ(
        &self,
        a: &Sut,
        b: &Sut,
        env: &Env,
        codec: &McCodec,
        cfgs: &[Config],
        deep: usize,
        trail: &mut Vec<String>,
    ) -> bool {
        if deep == 0 {
            return false;
        }
        self.twins
            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let me = *a.f.identity();
        let mut calls: Vec<Call> = self
            .probe
            .iter()
            .filter_map(|x| resolve(x, a, me, env, codec, cfgs))
            .collect();
        calls.extend(env.timers.iter().map(|t| Call::Timer(t.1.clone())));
        for call in calls {
            for m in [1u32, 2] {
                let (mut x, mut y) = (a.clone(), b.clone());
                let script: &[u8] = if m == 1 { &[] } else { &[1, 1, 1, 1, 1, 1] };
                let (o1, o2) = quiet_rng(|| {
                    let p = with_rng(m, script, || x.exec(&call));
                    let q = with_rng(m, script, || y.exec(&call));
                    (p, q)
                });
                trail.push(fmt_call(&call, codec));
                if o1.eff != o2.eff || o1.res != o2.res || x.obs() != y.obs() || o1.hlog != o2.hlog
                {
                    trail.push(format!(
                        "without: {:?} {:?} / with: {:?} {:?}",
                        o1.res,
                        o1.eff.iter().map(|e| fmt_eff(e, codec)).collect::<Vec<_>>(),
                        o2.res,
                        o2.eff.iter().map(|e| fmt_eff(e, codec)).collect::<Vec<_>>()
                    ));
                    return true;
                }
                let mut env2 = env.clone();
                if let Call::Timer(t) = &call {
                    if let Some(k) = env2.timers.iter().position(|z| z.1 == *t) {
                        env2.timers.remove(k);
                    }
                }
                for (t, _) in o1.timers() {
                    env2.timers.push((0, t.clone()));
                }
                // same complete state again: every continuation is the same
                if (!cfg!(foca_verif) || x.dump_full() != y.dump_full())
                    && self.differ(&x, &y, &env2, codec, cfgs, deep - 1, trail)
                {
                    return true;
                }
                trail.pop();
            }
        }
        false
    }
    fn rejects(&self, c: &Ctx<'_>, s: &Sut, o: &Obs, cfg: &Config, env: &Env) -> Result<(), Viol> {
        let codec = c.codec();
        let me = o.me;
        let dump = s.dump_full();
        let key = {
            let mut h = H128::default();
            h.dbg(&(&dump, cfg, self.ep.stale()));
            h.finish()
        };
        if self.done.lock().unwrap().contains(&key) {
            return Ok(());
        }
        let other = id(1, 0);
        let third = id(2, 0);
        let ups = vec![
            Member::new(third, 3, State::Down),
            Member::new(me, 0, State::Suspect),
            Member::new(id(5, 0), 0, State::Alive),
        ];
        let items = vec![vec![9u8, 9, 9]];
        let mut v: Vec<(&'static str, Call)> = Vec::new();
        let good = build(codec, other, 7, me, Message::Ping(3), &ups, &items);
        // too large, otherwise fine
        let mut big = build(codec, other, 7, me, Message::Ping(3), &ups, &[]);
        while big.len() <= cfg.max_packet_size.get() {
            let n = (cfg.max_packet_size.get() + 1 - big.len()).clamp(3, 60_000);
            big.extend_from_slice(&((n - 2) as u16).to_be_bytes());
            big.extend(std::iter::repeat(8).take(n - 2));
        }
        v.push(("too big", Call::Data(big)));
        // undecodable header / member list: every truncation that is not valid by itself
        let hdr = parse(codec, &good).map(|p| p.hdr_len).unwrap_or(0);
        for n in 0..good.len() {
            if accept(codec, cfg, o, &good[..n]).acc == Acc::Rejected {
                v.push((
                    if n < hdr {
                        "undecodable header"
                    } else {
                        "truncated member list"
                    },
                    Call::Data(good[..n].to_vec()),
                ));
            }
        }
        let mut bad = good.clone();
        bad[hdr - 2] = 200;
        if accept(codec, cfg, o, &bad).acc == Acc::Rejected {
            v.push(("bad tag", Call::Data(bad)));
        }
        for m in [
            Message::Ping(3),
            Message::Gossip,
            Message::Announce,
            Message::TurnUndead,
            Message::Broadcast,
        ] {
            let pig = piggybacks(&m);
            let u: &[Member<Id>] = if pig { &ups } else { &[] };
            for src in [
                me,
                Id {
                    gen: me.gen.wrapping_add(1),
                    ..me
                },
                Id {
                    gen: me.gen.wrapping_sub(1),
                    ..me
                },
            ] {
                v.push((
                    "from own address",
                    Call::Data(build(codec, src, 7, me, m.clone(), u, &[])),
                ));
            }
            for dst in [
                third,
                id(77, 0),
                Id {
                    gen: me.gen.wrapping_add(1),
                    ..me
                },
                Id {
                    gen: me.gen.wrapping_sub(1),
                    ..me
                },
            ] {
                if m == Message::Announce && dst.addr == me.addr {
                    continue;
                }
                let its: &[Vec<u8>] = if may_carry_items(&m) { &items } else { &[] };
                for src in [other, id(66, 0)] {
                    v.push((
                        "not for us",
                        Call::Data(build(codec, src, 7, dst, m.clone(), u, its)),
                    ));
                }
            }
            let mut one = build(codec, other, 7, me, m.clone(), &[], &[]);
            one.push(0);
            v.push(("single trailing byte", Call::Data(one)));
        }
        let mut ann = build(codec, other, 7, me, Message::Announce, &[], &[]);
        ann.extend_from_slice(&[0, 0, 0, 0]);
        v.push(("announce with payload", Call::Data(ann)));
        let n_data = v.len();
        let wrapped = self.ep.wrapped();
        for t in self.ep.stale() {
            v.push((
                if wrapped.contains(&t) {
                    WRAP
                } else {
                    "stale timer"
                },
                Call::Timer(t),
            ));
        }
        let n_timer = v.len();
        v.push(("reuse_down_identity", Call::Reuse));
        v.push(("change_identity to itself", Call::ChangeId(me)));
        for k in 0..6 {
            let mut x = cfg.clone();
            // together with changes that would be fine alone
            x.max_transmissions = std::num::NonZeroU8::new(9).unwrap();
            x.num_indirect_probes = nz(7);
            x.notify_down_members = !cfg.notify_down_members;
            match k {
                0 => x.probe_period = cfg.probe_period * 2,
                1 => x.probe_rtt = cfg.probe_rtt / 2,
                2 if cfg.periodic_announce.is_none() => x.periodic_announce = pp(10, 1),
                3 if cfg.periodic_gossip.is_none() => x.periodic_gossip = pp(10, 1),
                4 if cfg.periodic_announce_to_down_members.is_none() => {
                    x.periodic_announce_to_down_members = pp(10, 1)
                }
                _ => continue,
            }
            v.push(("set_config", Call::SetCfg(Box::new(x))));
        }
        v.push(("add_broadcast of nothing", Call::AddB(vec![])));
        v.push((
            "add_broadcast too big",
            Call::AddB(vec![3; cfg.max_packet_size.get() + 1]),
        ));

        let mut seen: std::collections::HashSet<String> = Default::default();
        let mut together = s.clone();
        for (i, (what, call)) in v.iter().enumerate() {
            let mut t = s.clone();
            let out = quiet_rng(|| t.exec(call));
            self.checked
                .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let judged = if i < n_data {
                true
            } else if i < n_timer {
                true
            } else {
                !out.ok()
            };
            if !judged {
                continue;
            }
            if let Res::Panic(p) = &out.res {
                return viol("panic", format!("{what}: {p}"));
            }
            if !out.eff.is_empty() || !out.hlog.is_empty() {
                return viol(
                    if *what == WRAP { WRAP } else { "reject-effects" },
                    format!(
                        "{what}: {} caused {:?}{}",
                        fmt_call(call, codec),
                        out.eff
                            .iter()
                            .map(|e| fmt_eff(e, codec))
                            .collect::<Vec<_>>(),
                        if out.hlog.is_empty() {
                            ""
                        } else {
                            " and a handler call"
                        }
                    ),
                );
            }
            if out.draws > 0 {
                return viol(
                    "reject-draws",
                    format!("{what}: {} consumed randomness", fmt_call(call, codec)),
                );
            }
            if t.obs() != *o {
                return viol(
                    "reject-state",
                    format!("{what}: {} changed observable state", fmt_call(call, codec)),
                );
            }
            let _ = quiet_rng(|| together.exec(call));
            let after = t.dump_full();
            if after != dump && seen.insert(after) {
                let mut trail = vec![];
                let cfgs = [cfg.clone()];
                if self.differ(
                    s,
                    &t,
                    env,
                    codec,
                    &cfgs,
                    self.deep.saturating_sub(1).max(1),
                    &mut trail,
                ) {
                    return viol(
                        "reject-trace",
                        format!(
                            "{what}: {} changes what happens next: {}",
                            fmt_call(call, codec),
                            trail.join(" ; ")
                        ),
                    );
                }
            }
        }
        if together.dump_full() != dump {
            let mut trail = vec![];
            let cfgs = [cfg.clone()];
            if self.differ(s, &together, env, codec, &cfgs, self.deep, &mut trail) {
                return viol(
                    "reject-trace",
                    format!(
                        "all rejected inputs together change what happens next: {}",
                        trail.join(" ; ")
                    ),
                );
            }
        }
        self.done.lock().unwrap().insert(key);
        Ok(())
    }
}
impl Mon for TraceMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        if self.first {
            self.first = false;
            self.rejects(c, c.pre, c.o0, c.cfg, c.env)?;
        }
        // the same call again from the same state
        let mut tw = c.pre.clone();
        let out = tw.exec(c.call);
        if out.eff != c.out.eff
            || out.res != c.out.res
            || tw.obs() != *c.o1
            || out.draws != c.out.draws
        {
            return viol(
                "nondeterministic",
                format!(
                    "{} behaved differently the second time",
                    fmt_call(c.call, c.codec())
                ),
            );
        }
        if cfg!(foca_verif) && tw.dump_full() != c.post.dump_full() {
            let mut trail = vec![];
            if self.differ(
                &tw,
                c.post,
                c.env1,
                c.codec(),
                &[c.cfg1.clone()],
                self.deep,
                &mut trail,
            ) {
                return viol(
                    "nondeterministic",
                    format!(
                        "{} left different state the second time: {}",
                        fmt_call(c.call, c.codec()),
                        trail.join(" ; ")
                    ),
                );
            }
        }
        self.ep.track(c);
        let r = self.rejects(c, c.post, c.o1, c.cfg1, c.env1);
        // restore the script position for the explorer
        r
    }
    fn fp(&self, h: &mut H128) {
        self.ep.fp(h);
        h.dbg(&self.first);
    }
}

/// Two instances created separately (nothing shared, different addresses in memory), given the
/// same history and the same random numbers: always the same effects and results.
#[derive(Clone, Default)]
pub struct TwinMon {
    twin: Option<Sut>,
    pub compared: Arc<std::sync::atomic::AtomicU64>,
}
impl Mon for TwinMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let t = self.twin.get_or_insert_with(|| Sut::new(c.init));
        let out = t.exec(c.call);
        self.compared
            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if out.eff != c.out.eff
            || out.res != c.out.res
            || out.hlog != c.out.hlog
            || out.draws != c.out.draws
            || t.obs() != *c.o1
        {
            return viol(
                "nondeterministic",
                format!(
                    "{}: an instance with the very same history did something else: {:?} {:?}",
                    fmt_call(c.call, c.codec()),
                    out.res,
                    out.eff
                        .iter()
                        .map(|e| fmt_eff(e, c.codec()))
                        .collect::<Vec<_>>()
                ),
            );
        }
        Ok(())
    }
    fn fp(&self, _: &mut H128) {}
}
#[allow(dead_code)]
fn _unused(i: Id) -> u8 {
    i.addr()
}
