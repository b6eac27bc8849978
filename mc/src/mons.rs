//! Monitors: independent judges of single steps of a real instance, one per property.
use crate::base::*;
use crate::explore::*;
use crate::sn::*;
use bytes::Buf;
use foca::{Config, Header, Identity, Member, Message, OwnedNotification as N, State};
use std::collections::{BTreeMap, BTreeSet};

/// How an instance observed as `o0` has to treat a datagram.
#[derive(Clone, Debug, PartialEq)]
pub enum Acc {
    /// too big, undecodable, from ourselves, malformed right after the header
    Rejected,
    NotForUs,
    /// sender is Down or superseded: payload discarded
    Inactive,
    Active,
}
#[derive(Clone, Debug)]
pub struct InData {
    pub acc: Acc,
    pub h: Option<Header<Id>>,
    pub ups: Vec<Member<Id>>,
    /// custom broadcast tail, raw
    pub tail: Vec<u8>,
}
pub fn accept(codec: &McCodec, cfg: &Config, o0: &Obs, data: &[u8]) -> InData {
    let mut r = InData {
        acc: Acc::Rejected,
        h: None,
        ups: vec![],
        tail: vec![],
    };
    if data.len() > cfg.max_packet_size.get() {
        return r;
    }
    let mut b = data;
    let Ok(h) = codec.dec_header(&mut b) else {
        return r;
    };
    r.h = Some(h.clone());
    if h.src.addr == o0.me.addr || b.len() == 1 || (h.message == Message::Announce && !b.is_empty())
    {
        return r;
    }
    let for_us = h.dst == o0.me || (h.message == Message::Announce && h.dst.addr == o0.me.addr);
    if !for_us {
        r.acc = Acc::NotForUs;
        return r;
    }
    if b.len() >= 2 && h.message != Message::Broadcast {
        let n = b.get_u16();
        for _ in 0..n {
            match codec.dec_member(&mut b) {
                Ok(m) => r.ups.push(m),
                Err(_) => {
                    r.ups.clear();
                    return r;
                }
            }
        }
    }
    r.tail = b.to_vec();
    r.acc = if sender_active(o0, &h.src) {
        Acc::Active
    } else {
        Acc::Inactive
    };
    r
}
/// After learning Alive(src), is src an active member?
pub fn sender_active(o0: &Obs, src: &Id) -> bool {
    match o0.rec(src.addr) {
        None => true,
        Some(m) if m.id() == src => m.state() != State::Down,
        Some(m) => wins(src, m.id()),
    }
}
/// Split a custom broadcast tail the way the grammar says; None when malformed.
pub fn items_of(tail: &[u8]) -> (Vec<Vec<u8>>, bool) {
    let mut b = tail;
    let mut v = Vec::new();
    if !b.is_empty() && b.len() < 3 {
        return (v, false);
    }
    while b.len() > 2 {
        let n = b.get_u16() as usize;
        if n == 0 || b.len() < n {
            return (v, false);
        }
        v.push(b[..n].to_vec());
        b.advance(n);
    }
    (v, b.is_empty())
}

/// What the input of a call says about the instance itself, in processing order.
#[derive(Clone, Debug, PartialEq)]
pub enum SelfEv {
    Rejoin(Id),
    Defunct,
    /// refutable suspicion at this incarnation
    Suspected(u16),
}
pub struct SelfRun {
    pub evs: Vec<SelfEv>,
    pub id: Id,
    pub inc: u16,
    pub undead: bool,
}
/// Reference model of what an instance must do about itself when processing `call`.
pub fn self_model(c: &Ctx<'_>, inc0: u16, undead0: bool) -> SelfRun {
    let mut s = SelfRun {
        evs: vec![],
        id: c.o0.me,
        inc: inc0,
        undead: undead0,
    };
    let down = |s: &mut SelfRun| match s.id.renew() {
        // coming back after having left (or failed to) is neither asked for nor forbidden here
        Some(n)
            if n != s.id
                && wins(&n, &s.id)
                && (!s.undead
                    || c.out
                        .notes()
                        .any(|x| matches!(x, N::Rejoin(y) if *y == n))) =>
        {
            s.id = n;
            s.inc = 0;
            s.undead = false;
            s.evs.push(SelfEv::Rejoin(n));
        }
        _ => {
            s.undead = true;
            s.evs.push(SelfEv::Defunct);
        }
    };
    let upd = |s: &mut SelfRun, u: &Member<Id>| {
        if *u.id() != s.id {
            return;
        }
        match u.state() {
            State::Alive => {}
            State::Down => down(s),
            State::Suspect => {
                if u.incarnation() >= s.inc {
                    if u.incarnation() == u16::MAX {
                        down(s);
                    } else {
                        s.inc = u.incarnation() + 1;
                        s.evs.push(SelfEv::Suspected(u.incarnation()));
                    }
                }
            }
        }
    };
    match c.call {
        Call::Leave if declared_down(c) => {
            s.undead = true;
            s.evs.push(SelfEv::Defunct);
        }
        Call::Apply(v, _) => v.iter().for_each(|u| upd(&mut s, u)),
        Call::Data(d) => {
            let i = accept(c.codec(), c.cfg, c.o0, d);
            match i.acc {
                Acc::Active => {
                    i.ups.iter().for_each(|u| upd(&mut s, u));
                    // a TurnUndead is about the identity it is addressed to
                    if let Some(h) = &i.h {
                        if h.message == Message::TurnUndead && h.dst == s.id && !s.undead {
                            down(&mut s);
                        }
                    }
                }
                Acc::Inactive => {
                    if matches!(&i.h, Some(h) if h.message == Message::TurnUndead) {
                        down(&mut s);
                    }
                }
                _ => {}
            }
        }
        // (telling the others may fail, the change doesn't)
        Call::ChangeId(n) if c.o1.me != c.o0.me => {
            s.id = *n;
            s.inc = 0;
            s.undead = false;
        }
        Call::Reuse if c.out.ok() => {
            s.inc = 0;
            s.undead = false;
        }
        _ => {}
    }
    s
}

/// Leaving declares the instance Down. When it fails, it may or may not have done so: what is
/// going to be sent tells (and nothing does if that was going to be sent before).
fn declared_down(c: &Ctx<'_>) -> bool {
    if c.out.ok() {
        return true;
    }
    let told = |s: &Sut, o: &Obs, cfg| {
        peek_backlog(s, c.codec(), o, cfg)
            .iter()
            .any(|u| *u.id() == c.o0.me && u.state() == State::Down)
    };
    if told(c.pre, c.o0, c.cfg) {
        return c.out.notes().any(|n| matches!(n, N::Defunct));
    }
    told(c.post, c.o1, c.cfg1)
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Conn {
    Idle,
    Active,
    Undead,
}
#[derive(Clone, Debug)]
pub struct Mirror {
    pub up: BTreeSet<Id>,
    pub conn: Conn,
    pub twin: bool,
}
impl Mirror {
    pub fn new(twin: bool) -> Self {
        Mirror {
            up: BTreeSet::new(),
            conn: Conn::Idle,
            twin,
        }
    }
}
impl Mon for Mirror {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let undead0 = self.conn == Conn::Undead;
        let needs_inc = match c.call {
            Call::Apply(v, _) => v
                .iter()
                .any(|u| u.state() == State::Suspect && u.id().addr == c.o0.me.addr),
            Call::Data(d) => accept(c.codec(), c.cfg, c.o0, d)
                .ups
                .iter()
                .any(|u| u.state() == State::Suspect && u.id().addr == c.o0.me.addr),
            _ => false,
        };
        let inc0 = if needs_inc {
            c.pre.peek_inc(c.codec(), Some(c.cfg))
        } else {
            0
        };
        let model = self_model(c, inc0, undead0);
        let mut selfev = Vec::new();
        for n in c.out.notes() {
            match n {
                N::MemberUp(x) => {
                    if !self.up.insert(*x) {
                        return viol(
                            "up-twice",
                            format!("MemberUp({x:?}) for a member already up"),
                        );
                    }
                }
                N::MemberDown(x) => {
                    if !self.up.remove(x) {
                        return viol(
                            "down-not-up",
                            format!("MemberDown({x:?}) for a member that is not up"),
                        );
                    }
                }
                N::Rename(a, b) => {
                    if a == b {
                        return viol("rename-same", format!("Rename({a:?},{b:?})"));
                    }
                    if self.up.remove(a) {
                        self.up.insert(*b);
                    }
                }
                N::Active => {
                    if self.conn != Conn::Idle {
                        return viol(
                            "active-not-idle",
                            format!("Active notified while {:?}", self.conn),
                        );
                    }
                    if self.up.is_empty() && c.o1.num == 0 {
                        return viol("active-empty", "Active notified without any active member");
                    }
                    self.conn = Conn::Active;
                }
                N::Idle => {
                    if self.conn != Conn::Active {
                        return viol(
                            "idle-not-active",
                            format!("Idle notified while {:?}", self.conn),
                        );
                    }
                    if !self.up.is_empty() && c.o1.num > 0 {
                        return viol("idle-nonempty", "Idle notified with active members");
                    }
                    self.conn = Conn::Idle;
                }
                N::Defunct => {
                    self.conn = Conn::Undead;
                    selfev.push(SelfEv::Defunct);
                }
                N::Rejoin(x) => {
                    // the identity changed: idle until proven otherwise. Active may have been
                    // notified again in the same call only after this
                    self.conn = Conn::Idle;
                    selfev.push(SelfEv::Rejoin(*x));
                }
            }
        }
        match c.call {
            Call::ChangeId(_) if c.o1.me != c.o0.me => self.conn = Conn::Idle,
            Call::Reuse if c.out.ok() => self.conn = Conn::Idle,
            _ => {}
        }
        // mirror
        let have: BTreeSet<Id> = c.o1.act.iter().map(|m| *m.id()).collect();
        if have != self.up {
            return viol(
                "mirror",
                format!(
                    "notifications say up={:?}, iter_members says {:?}",
                    self.up, have
                ),
            );
        }
        if have.len() != c.o1.act.len() || c.o1.num != c.o1.act.len() {
            return viol(
                "num",
                format!(
                    "num_members()={} but {} active members",
                    c.o1.num,
                    c.o1.act.len()
                ),
            );
        }
        let filt: BTreeSet<Id> =
            c.o1.all
                .iter()
                .filter(|m| m.state() != State::Down)
                .map(|m| *m.id())
                .collect();
        if filt != have {
            return viol(
                "active-filter",
                format!("iter_members {have:?} vs membership state {filt:?}"),
            );
        }
        if self.conn == Conn::Active && c.o1.num == 0 {
            return viol(
                "missing-idle",
                "no active member left but Idle was not notified",
            );
        }
        // own death
        let mut want: Vec<SelfEv> = model
            .evs
            .iter()
            .filter(|e| !matches!(e, SelfEv::Suspected(_)))
            .cloned()
            .collect();
        let mut got = selfev.clone();
        if undead0 {
            // being told again while already defunct: repeating Defunct is optional
            want.retain(|e| *e != SelfEv::Defunct);
            got.retain(|e| *e != SelfEv::Defunct);
            if selfev.contains(&SelfEv::Defunct) && !model.evs.contains(&SelfEv::Defunct) {
                return viol(
                    "self-event",
                    format!(
                        "{selfev:?} notified although the input says {:?}",
                        model.evs
                    ),
                );
            }
        }
        if want != got {
            return viol(
                "self-event",
                format!("input implies {want:?} about the own identity, notified {got:?} (own incarnation before: {inc0})"),
            );
        }
        if c.out.ok() && c.o1.me != model.id {
            return viol(
                "identity",
                format!("identity is {:?}, expected {:?}", c.o1.me, model.id),
            );
        }
        // AccumulatingRuntime
        if self.twin {
            let mut tw = c.pre.clone();
            RNG.with(|r| r.borrow_mut().used = 0);
            let mut acc = foca::AccumulatingRuntime::new();
            let _ = run(&mut tw.f, c.call, &mut acc);
            let mut want_s = Vec::new();
            let mut want_t = Vec::new();
            let mut want_n = Vec::new();
            for e in &c.out.eff {
                match e {
                    Eff::Send { dst, data } => want_s.push((*dst, data.clone())),
                    Eff::Timer { t, after } => want_t.push((*after, t.clone())),
                    Eff::Notify(n) => want_n.push(n.clone()),
                }
            }
            let total = want_s.len() + want_t.len() + want_n.len();
            if acc.backlog() != total {
                return viol(
                    "acc-backlog",
                    format!(
                        "AccumulatingRuntime::backlog()={} of {total}",
                        acc.backlog()
                    ),
                );
            }
            let got_s: Vec<_> = std::iter::from_fn(|| acc.to_send())
                .map(|(d, b)| (d, b.to_vec()))
                .collect();
            let got_t: Vec<_> = std::iter::from_fn(|| acc.to_schedule()).collect();
            let got_n: Vec<_> = std::iter::from_fn(|| acc.to_notify()).collect();
            if got_s != want_s || got_t != want_t || got_n != want_n {
                return viol(
                    "acc-runtime",
                    "AccumulatingRuntime yields different effects than a direct Runtime",
                );
            }
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        h.dbg(&(&self.up, self.conn));
    }
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Default)]
pub struct AddrMon {
    told: BTreeSet<u8>,
}
impl Mon for AddrMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let mut inact = false;
        match c.call {
            Call::Data(d) => {
                let i = accept(c.codec(), c.cfg, c.o0, d);
                if let Some(h) = &i.h {
                    if i.acc == Acc::Active || i.acc == Acc::Inactive {
                        self.told.insert(h.src.addr);
                    }
                }
                if i.acc == Acc::Active {
                    self.told.extend(i.ups.iter().map(|u| u.id().addr));
                }
                inact = i.acc == Acc::Inactive;
            }
            Call::Apply(v, _) => self.told.extend(v.iter().map(|u| u.id().addr)),
            _ => {}
        }
        let mut seen = BTreeSet::new();
        for m in &c.o1.all {
            if !seen.insert(m.id().addr) {
                return viol(
                    "dup-addr",
                    format!("two records with address {}", m.id().addr),
                );
            }
            if !self.told.contains(&m.id().addr) {
                return viol(
                    "untold",
                    format!(
                        "record {:?} about an address it was never told about",
                        m.id()
                    ),
                );
            }
        }
        for m in
            c.o1.act
                .iter()
                .chain(c.o1.all.iter().filter(|m| m.state() != State::Down))
        {
            if m.id().addr == c.o1.me.addr {
                return viol(
                    "self-active",
                    format!("own address listed as active: {}", fmt_m(m)),
                );
            }
        }
        // identity of each record: only replaced by winners, reported as Rename
        let mut cur: BTreeMap<u8, Id> = c.o0.all.iter().map(|m| (m.id().addr, *m.id())).collect();
        for n in c.out.notes() {
            if let N::Rename(a, b) = n {
                if a.addr != b.addr {
                    return viol(
                        "rename-addr",
                        format!("Rename({a:?},{b:?}) across addresses"),
                    );
                }
                if !wins(b, a) {
                    return viol(
                        "rename-loser",
                        format!("Rename({a:?},{b:?}) although {b:?} does not win"),
                    );
                }
                if let Some(x) = cur.get(&a.addr) {
                    if x != a {
                        return viol(
                            "rename-from",
                            format!("Rename({a:?},{b:?}) but the record was {x:?}"),
                        );
                    }
                }
                cur.insert(a.addr, *b);
            }
        }
        for m in &c.o1.all {
            if let Some(x) = cur.get(&m.id().addr) {
                if x != m.id() {
                    return viol(
                        "replaced-silently",
                        format!("record {x:?} became {:?} without a matching Rename", m.id()),
                    );
                }
            }
        }
        if inact {
            let same = {
                let mut a = c.o0.all.clone();
                let mut b = c.o1.all.clone();
                a.sort_by_key(|m| m.id().addr);
                b.sort_by_key(|m| m.id().addr);
                a == b
            };
            if !same {
                return viol(
                    "inactive-payload",
                    "payload of a Down or superseded sender changed the membership state",
                );
            }
            if !c.out.hlog.is_empty() {
                return viol(
                    "inactive-custom",
                    "custom broadcast of a Down or superseded sender was delivered",
                );
            }
            for (dst, p) in c.packets()? {
                if matches!(
                    p.h.message,
                    Message::Ack(_)
                        | Message::Feed
                        | Message::IndirectPing { .. }
                        | Message::IndirectAck { .. }
                        | Message::ForwardedAck { .. }
                ) {
                    return viol(
                        "inactive-answered",
                        format!("message of a Down or superseded sender was acted upon: {:?} sent to {dst:?}", p.h.message),
                    );
                }
            }
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        h.dbg(&self.told);
    }
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug)]
pub struct IncMon {
    inc: u16,
    undead: bool,
    told: BTreeMap<Id, u16>,
    /// identities this instance was using when it learned they are Down
    pub fresh: bool,
}
impl IncMon {
    pub fn new() -> Self {
        IncMon {
            inc: 0,
            undead: false,
            told: BTreeMap::new(),
            fresh: true,
        }
    }
    fn tell(&mut self, i: Id, inc: u16) {
        let e = self.told.entry(i).or_insert(inc);
        *e = (*e).max(inc);
    }
}
impl Mon for IncMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let codec = c.codec();
        if self.fresh {
            self.fresh = false;
            if c.pre.peek_inc(codec, Some(c.cfg)) != 0 {
                return viol("inc-start", "incarnation does not start at 0");
            }
        }
        let inc0 = self.inc;
        match c.call {
            Call::Data(d) => {
                let i = accept(codec, c.cfg, c.o0, d);
                if let Some(h) = &i.h {
                    self.tell(h.src, h.src_incarnation);
                }
                for u in &i.ups {
                    self.tell(*u.id(), u.incarnation());
                }
            }
            Call::Apply(v, _) => {
                for u in v {
                    self.tell(*u.id(), u.incarnation());
                }
            }
            _ => {}
        }
        let model = self_model(c, inc0, self.undead);
        let inc1 = c.post.peek_inc(codec, Some(c.cfg1));
        let undead1 = c.post.peek_undead();
        let highest = model
            .evs
            .iter()
            .filter_map(|e| {
                if let SelfEv::Suspected(i) = e {
                    Some(*i)
                } else {
                    None
                }
            })
            .max();
        if c.out.ok() {
            if c.o1.me == c.o0.me && !matches!(c.call, Call::Reuse | Call::ChangeId(_)) {
                if inc1 < inc0 {
                    return viol(
                        "inc-decreased",
                        format!(
                            "incarnation went from {inc0} to {inc1} with identity {:?}",
                            c.o1.me
                        ),
                    );
                }
                if inc1 > inc0 && highest.is_none() {
                    return viol("inc-grew", format!("incarnation grew from {inc0} to {inc1} without a suspicion at or above it"));
                }
                if let Some(s) = highest {
                    if inc1 <= s && !undead1 {
                        return viol(
                            "not-refuted",
                            format!("suspected at {s} but incarnation is {inc1}"),
                        );
                    }
                }
            } else if inc1 != model.inc && !(model.inc > 0 && inc1 > highest.unwrap_or(0)) {
                return viol(
                    "inc-reset",
                    format!(
                        "identity {:?}: incarnation {inc1}, expected {}",
                        c.o1.me, model.inc
                    ),
                );
            }
        }
        // headers
        let mut cur = (c.o0.me, inc0);
        for (dst, p) in c.packets()? {
            let (s, i) = (p.h.src, p.h.src_incarnation);
            if s == cur.0 {
                if i < cur.1 && !(matches!(c.call, Call::ChangeId(_) | Call::Reuse)) {
                    return viol(
                        "hdr-inc",
                        format!("header {s:?}@{i} after {}@{:?}", cur.1, cur.0),
                    );
                }
            } else if s.addr == cur.0.addr
                && !wins(&s, &cur.0)
                && !matches!(c.call, Call::ChangeId(_))
            {
                return viol(
                    "hdr-src",
                    format!("datagram to {dst:?} sent as {s:?} while being {:?}", cur.0),
                );
            }
            if s == c.o1.me && i > inc1 {
                return viol(
                    "hdr-inc-high",
                    format!("header {s:?}@{i} above own incarnation {inc1}"),
                );
            }
            cur = (s, i);
            for u in p.ups.iter().flatten() {
                if u.id().addr == c.o1.me.addr {
                    continue;
                }
                match self.told.get(u.id()) {
                    Some(t) if u.incarnation() <= *t => {}
                    t => {
                        return viol(
                            "invented-inc",
                            format!(
                                "tells {dst:?} about {} but was told at most {t:?}",
                                fmt_m(u)
                            ),
                        )
                    }
                }
            }
        }
        // refutation shows up in later datagrams of this very call
        // own death
        let died = model.evs.iter().any(|e| !matches!(e, SelfEv::Suspected(_)));
        if died && c.out.ok() {
            let rejoins: Vec<Id> = model
                .evs
                .iter()
                .filter_map(|e| {
                    if let SelfEv::Rejoin(x) = e {
                        Some(*x)
                    } else {
                        None
                    }
                })
                .collect();
            let told_rejoin: Vec<Id> = c
                .out
                .notes()
                .filter_map(|n| if let N::Rejoin(x) = n { Some(*x) } else { None })
                .collect();
            if rejoins != told_rejoin {
                return viol(
                    "rejoin",
                    format!("must rejoin as {rejoins:?}, notified {told_rejoin:?}"),
                );
            }
            if rejoins.is_empty() {
                if !undead1 || c.o1.me != c.o0.me {
                    return viol(
                        "carries-on",
                        format!(
                            "own identity {:?} is Down but the instance is not defunct",
                            c.o0.me
                        ),
                    );
                }
            } else {
                if c.o1.me != *rejoins.last().unwrap() {
                    return viol(
                        "rejoin-id",
                        format!("identity {:?} after Rejoin({rejoins:?})", c.o1.me),
                    );
                }
                if !wins(&c.o1.me, &c.o0.me) || c.o1.me == c.o0.me {
                    return viol(
                        "rejoin-loses",
                        format!("{:?} does not win against {:?}", c.o1.me, c.o0.me),
                    );
                }
                if !self.undead {
                    // the old identity's death must be gossiped
                    let mut found = false;
                    for (_, p) in c.packets()? {
                        found |= p
                            .ups
                            .iter()
                            .flatten()
                            .any(|u| *u.id() == c.o0.me && u.state() == State::Down);
                    }
                    found |= peek_backlog(c.post, codec, c.o1, c.cfg1)
                        .iter()
                        .any(|u| *u.id() == c.o0.me && u.state() == State::Down);
                    // several rejoins in one call: the same address keeps only the last one
                    if !found && rejoins.len() == 1 {
                        return viol(
                            "old-not-gossiped",
                            format!(
                                "rejoined as {:?} without gossiping {:?} as Down",
                                c.o1.me, c.o0.me
                            ),
                        );
                    }
                }
            }
        }
        if self.undead && undead1 {
            for (dst, p) in c.packets()? {
                let by_user = matches!(
                    c.call,
                    Call::Announce(_) | Call::Gossip | Call::Broadcast | Call::Leave
                );
                if !by_user && p.h.message != Message::TurnUndead {
                    return viol(
                        "undead-talks",
                        format!(
                            "defunct instance sent {:?} to {dst:?} on {}",
                            p.h.message,
                            fmt_call(c.call, codec)
                        ),
                    );
                }
            }
            if c.out.notes().any(|n| matches!(n, N::Active)) {
                return viol("undead-active", "defunct instance notified Active");
            }
        }
        self.inc = inc1;
        self.undead = undead1;
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        h.dbg(&(self.inc, self.undead, &self.told));
    }
}
/// The pending updates of an instance, read through a fork answering a Ping of a fresh peer
/// (or a gossip call when it is not able to answer).
pub fn peek_backlog(s: &Sut, codec: &McCodec, o: &Obs, cfg: &foca::Config) -> Vec<Member<Id>> {
    if o.upd == 0 {
        return vec![];
    }
    let mut f = s.clone();
    // a fork joined by an unknown peer; its own record is one more update, filtered out below
    let fresh = id(249, 0);
    // (with room for everything)
    let mut roomy = cfg.clone();
    roomy.max_packet_size = nz(cfg.max_packet_size.get().max(60_000));
    let out = quiet_rng(|| {
        let _ = f.exec(&Call::SetCfg(Box::new(roomy)));
        let d = build(codec, fresh, 0, o.me, Message::Gossip, &[], &[]);
        let _ = f.exec(&Call::Data(d));
        f.exec(&Call::Gossip)
    });
    let mut v = Vec::new();
    for (_, d) in out.sends() {
        if let Ok(p) = parse(codec, d) {
            for u in p.ups.into_iter().flatten() {
                if *u.id() != fresh && !v.contains(&u) {
                    v.push(u);
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C19

#[derive(Clone, Debug)]
pub struct DstMon;
impl Mon for DstMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let relay_to = c.input().and_then(|p| match p.h.message {
            Message::PingReq { target, .. } | Message::IndirectAck { target, .. } => Some(target),
            _ => None,
        });
        for (dst, d) in c.out.sends() {
            let me = match parse(c.codec(), d) {
                Ok(p) => {
                    let relay = matches!(
                        p.h.message,
                        Message::IndirectPing { .. } | Message::ForwardedAck { .. }
                    ) && relay_to == Some(*dst);
                    if relay {
                        continue;
                    }
                    p.h.src.addr
                }
                Err(_) => c.o1.me.addr,
            };
            if let Call::Announce(x) = c.call {
                if x == dst {
                    continue;
                }
            }
            if dst.addr == me {
                let k = parse(c.codec(), d)
                    .map(|p| format!("{:?}", p.h.message))
                    .unwrap_or_default();
                return viol(
                    "self-dst",
                    format!("{k} sent to {dst:?}, which bears the own address"),
                );
            }
        }
        Ok(())
    }
    fn fp(&self, _h: &mut H128) {}
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug)]
pub struct WireMon;
impl Mon for WireMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let codec = c.codec();
        let mut inc = None;
        for (dst, d) in c.out.sends() {
            let max = c.cfg.max_packet_size.get();
            if d.len() > max {
                return viol(
                    "too-long",
                    format!("datagram of {} bytes, limit {max}", d.len()),
                );
            }
            let p = match parse(codec, d) {
                Ok(p) => p,
                Err(e) => {
                    return viol("malformed", format!("{e}; datagram to {dst:?}: {}", hex(d)))
                }
            };
            if p.h.dst != *dst {
                return viol(
                    "hdr-dst",
                    format!("handed over for {dst:?}, header says {:?}", p.h.dst),
                );
            }
            if p.h.src != c.o0.me && p.h.src != c.o1.me {
                // several identity changes in one call
                if !c
                    .out
                    .notes()
                    .any(|n| matches!(n, N::Rejoin(x) if *x == p.h.src))
                {
                    return viol(
                        "hdr-src",
                        format!("header source {:?}, identity {:?}", p.h.src, c.o1.me),
                    );
                }
            }
            let (i0, i1) =
                *inc.get_or_insert_with(|| (c.pre.peek_inc(codec, Some(c.cfg)), c.post.peek_inc(codec, Some(c.cfg1))));
            let okinc = if p.h.src == c.o0.me && p.h.src == c.o1.me {
                i0.min(i1) <= p.h.src_incarnation && p.h.src_incarnation <= i1.max(i0)
            } else if p.h.src == c.o1.me {
                p.h.src_incarnation <= i1
            } else {
                true
            };
            if !okinc {
                return viol(
                    "hdr-inc",
                    format!("header incarnation {}, own {i0}..{i1}", p.h.src_incarnation),
                );
            }
            if piggybacks(&p.h.message) && p.ups.is_none() && max - p.hdr_len > 2 {
                return viol(
                    "no-count",
                    format!(
                        "{:?} lacks the member count although {} bytes were left",
                        p.h.message,
                        max - p.hdr_len
                    ),
                );
            }
            if p.h.message == Message::Feed {
                for m in p.ups.iter().flatten() {
                    if m.id() == dst || m.id().addr == p.h.src.addr {
                        return viol("feed-self", format!("Feed to {dst:?} lists {}", fmt_m(m)));
                    }
                    if m.state() == State::Down || !c.o1.act.contains(m) {
                        return viol(
                            "feed-inactive",
                            format!(
                                "Feed to {dst:?} lists {} which is not an active member",
                                fmt_m(m)
                            ),
                        );
                    }
                }
                let mut ids: Vec<_> = p.ups.iter().flatten().map(|m| *m.id()).collect();
                let n = ids.len();
                ids.sort();
                ids.dedup();
                if ids.len() != n {
                    return viol("feed-dup", format!("Feed to {dst:?} lists a member twice"));
                }
            }
            // a peer accepts it
            if p.h.src.addr != dst.addr {
                let mut init = Init::new(*dst, c.cfg.clone());
                init.codec = *codec;
                init.handler.always = true;
                let mut peer = Sut::new(&init);
                let out = quiet_rng(|| peer.exec(&Call::Data(d.clone())));
                if let Res::Err(e) = &out.res {
                    if matches!(
                        e,
                        ErrK::Decode(_) | ErrK::MalformedPacket | ErrK::DataTooBig
                    ) {
                        return viol(
                            "peer-rejects",
                            format!("peer {dst:?} rejects {:?}: {e:?}", p.h.message),
                        );
                    }
                }
                if let Res::Panic(e) = &out.res {
                    return viol(
                        "peer-panics",
                        format!("peer {dst:?} panics on {:?}: {e}", p.h.message),
                    );
                }
            }
        }
        Ok(())
    }
    fn fp(&self, _h: &mut H128) {}
}

// ------------------------------------------------------------------ C03, one instance

/// What leave_cluster tells and to whom, and silence afterwards.
#[derive(Clone, Debug, Default)]
pub struct LeaveMon {
    left: bool,
}
impl Mon for LeaveMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        match (c.call, &c.out.res) {
            (Call::Leave, _) => self.left = true,
            (Call::Reuse | Call::ChangeId(_), Res::Ok) => self.left = false,
            _ => {}
        }
        if !self.left {
            return Ok(());
        }
        let codec = c.codec();
        if !matches!(c.call, Call::Leave) {
            for (dst, d) in c.out.sends() {
                let Ok(p) = parse(codec, d) else { continue };
                if matches!(
                    p.h.message,
                    Message::Ack(_)
                        | Message::IndirectPing { .. }
                        | Message::IndirectAck { .. }
                        | Message::ForwardedAck { .. }
                ) {
                    return viol(
                        "answers-after-leaving",
                        format!("the instance has left but sent {:?} to {dst:?}", p.h.message),
                    );
                }
            }
            return Ok(());
        }
        if !matches!(c.out.res, Res::Ok) {
            return Ok(());
        }
        let me = c.o0.me;
        if !c.o0.act.is_empty() && c.out.sends().next().is_none() {
            return viol(
                "leaves-silently",
                format!("{} active members, none was told", c.o0.act.len()),
            );
        }
        for (i, (dst, d)) in c.out.sends().enumerate() {
            let Ok(p) = parse(codec, d) else { continue };
            let says = p.ups.iter().flatten().any(|m| *m.id() == me && m.state() == State::Down);
            if !says {
                // (the later ones may lack it when it may be sent only so many times)
                let need = codec.enc_member(&Member::new(me, 0, State::Down)).len()
                    + if p.ups.is_some() { 0 } else { 2 };
                if i == 0 && c.cfg.max_packet_size.get() >= d.len() + need {
                    return viol(
                        "leave-not-told",
                        format!("the first datagram sent on leaving doesn't tell {dst:?} that {me:?} is Down"),
                    );
                }
                continue;
            }
            if dst.addr == me.addr {
                continue;
            }
            let mut init = Init::new(*dst, c.cfg.clone());
            init.codec = *codec;
            init.handler.always = true;
            let mut peer = Sut::new(&init);
            let out = quiet_rng(|| {
                peer.exec(&Call::Apply(vec![Member::new(me, 0, State::Alive)], false));
                peer.exec(&Call::Data(d.clone()))
            });
            if !out.notes().any(|n| matches!(n, N::MemberDown(x) if *x == me)) {
                return viol(
                    "leaver-not-reported-at-once",
                    format!("{dst:?} was told by {me:?} itself and didn't report it: {:?}", out.res),
                );
            }
        }
        Ok(())
    }
    fn fp(&self, h: &mut H128) {
        h.u64(self.left as u64);
    }
}
