//! Instances with hundreds to tens of thousands of members, i.e. with more of everything than an
//! 8-bit or 16-bit count can hold (the other scopes have up to 255 addresses). One history per
//! size, RNG stream and packet size, every call judged; each property looks at its own verdicts.
use crate::base::*;
use crate::explore::*;
use bytes::{Buf, BufMut};
use foca::{Config, Foca, Header, Member, Message, Notification, OwnedNotification, Runtime, State, Timer};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct W {
    a: u32,
    g: u8,
}
const fn w(a: u32, g: u8) -> W {
    W { a, g }
}
impl foca::Identity for W {
    type Addr = u32;
    fn renew(&self) -> Option<Self> {
        Some(w(self.a, self.g + 1))
    }
    fn addr(&self) -> u32 {
        self.a
    }
    fn win_addr_conflict(&self, o: &Self) -> bool {
        self.g > o.g
    }
}
const MEMBER: usize = 7;
#[derive(Clone, Copy)]
struct WC;
fn put_id(i: &W, b: &mut impl BufMut) {
    b.put_slice(&i.a.to_be_bytes()[1..]);
    b.put_u8(i.g);
}
fn get_id(b: &mut impl Buf) -> W {
    let mut x = 0u32;
    for _ in 0..3 {
        x = (x << 8) | b.get_u8() as u32;
    }
    w(x, b.get_u8())
}
impl foca::Codec<W> for WC {
    type Error = CodecErr;
    fn encode_header(&mut self, h: &Header<W>, mut b: impl BufMut) -> Result<(), CodecErr> {
        if b.remaining_mut() < 16 {
            return Err(CodecErr::Full);
        }
        put_id(&h.src, &mut b);
        b.put_u16(h.src_incarnation);
        put_id(&h.dst, &mut b);
        let (k, t, n) = match h.message {
            Message::Ping(n) => (0, h.dst, n),
            Message::Ack(n) => (1, h.dst, n),
            Message::PingReq { target, probe_number } => (2, target, probe_number),
            Message::IndirectPing { origin, probe_number } => (3, origin, probe_number),
            Message::IndirectAck { target, probe_number } => (4, target, probe_number),
            Message::ForwardedAck { origin, probe_number } => (5, origin, probe_number),
            Message::Announce => (6, h.dst, 0),
            Message::Feed => (7, h.dst, 0),
            Message::Gossip => (8, h.dst, 0),
            Message::Broadcast => (9, h.dst, 0),
            Message::TurnUndead => (10, h.dst, 0),
        };
        b.put_u8(k);
        put_id(&t, &mut b);
        b.put_u8(n);
        Ok(())
    }
    fn decode_header(&mut self, mut b: impl Buf) -> Result<Header<W>, CodecErr> {
        if b.remaining() < 16 {
            return Err(CodecErr::Short);
        }
        let src = get_id(&mut b);
        let src_incarnation = b.get_u16();
        let dst = get_id(&mut b);
        let k = b.get_u8();
        let t = get_id(&mut b);
        let n = b.get_u8();
        Ok(Header {
            src,
            src_incarnation,
            dst,
            message: match k {
                0 => Message::Ping(n),
                1 => Message::Ack(n),
                2 => Message::PingReq { target: t, probe_number: n },
                3 => Message::IndirectPing { origin: t, probe_number: n },
                4 => Message::IndirectAck { target: t, probe_number: n },
                5 => Message::ForwardedAck { origin: t, probe_number: n },
                6 => Message::Announce,
                7 => Message::Feed,
                8 => Message::Gossip,
                9 => Message::Broadcast,
                10 => Message::TurnUndead,
                _ => return Err(CodecErr::Bad),
            },
        })
    }
    fn encode_member(&mut self, m: &Member<W>, mut b: impl BufMut) -> Result<(), CodecErr> {
        if b.remaining_mut() < MEMBER {
            return Err(CodecErr::Full);
        }
        put_id(m.id(), &mut b);
        b.put_u16(m.incarnation());
        b.put_u8(match m.state() {
            State::Alive => 0,
            State::Suspect => 1,
            State::Down => 2,
        });
        Ok(())
    }
    fn decode_member(&mut self, mut b: impl Buf) -> Result<Member<W>, CodecErr> {
        if b.remaining() < MEMBER {
            return Err(CodecErr::Short);
        }
        let i = get_id(&mut b);
        let inc = b.get_u16();
        Ok(Member::new(
            i,
            inc,
            match b.get_u8() {
                0 => State::Alive,
                1 => State::Suspect,
                2 => State::Down,
                _ => return Err(CodecErr::Bad),
            },
        ))
    }
}

/// Items are their own keys; nothing invalidates anything but itself.
struct WK(Vec<u8>);
impl foca::Invalidates for WK {
    fn invalidates(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
struct WH;
impl foca::BroadcastHandler<W> for WH {
    type Key = WK;
    type Error = CodecErr;
    fn receive_item(&mut self, d: &[u8], _s: Option<&W>) -> Result<Option<WK>, CodecErr> {
        Ok(Some(WK(d.to_vec())))
    }
}

#[derive(Default)]
struct Rt {
    sends: Vec<(W, Vec<u8>)>,
    timers: Vec<(Timer<W>, Duration)>,
    notes: Vec<OwnedNotification<W>>,
}
impl Runtime<W> for Rt {
    fn notify(&mut self, n: Notification<'_, W>) {
        self.notes.push(n.to_owned());
    }
    fn send_to(&mut self, to: W, d: &[u8]) {
        self.sends.push((to, d.to_vec()));
    }
    fn submit_after(&mut self, t: Timer<W>, a: Duration) {
        self.timers.push((t, a));
    }
}

struct Pkt {
    h: Header<W>,
    ups: Option<Vec<Member<W>>>,
    items: Vec<Vec<u8>>,
}
fn parse_w(mut d: &[u8]) -> Result<Pkt, String> {
    use foca::Codec;
    let h = WC.decode_header(&mut d).map_err(|e| format!("{e:?}"))?;
    let piggy = !matches!(h.message, Message::Announce | Message::TurnUndead | Message::Broadcast);
    let mut ups = None;
    if piggy && !d.is_empty() {
        if d.len() < 2 {
            return Err("one trailing byte".into());
        }
        let n = d.get_u16();
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(WC.decode_member(&mut d).map_err(|e| format!("{e:?}"))?);
        }
        ups = Some(v);
    }
    let mut items = Vec::new();
    while !d.is_empty() {
        if d.len() < 2 {
            return Err("trailing byte".into());
        }
        let n = d.get_u16() as usize;
        if n == 0 || n > d.len() {
            return Err(format!("item of {n} bytes, {} left", d.len()));
        }
        items.push(d[..n].to_vec());
        d.advance(n);
    }
    Ok(Pkt { h, ups, items })
}

type Bad = (&'static str, &'static str, String);
struct Run {
    f: Foca<W, WC, McRng, WH>,
    cfg: Config,
    /// active members according to the notifications
    up: BTreeMap<u32, W>,
    /// backlog according to what was accepted: transmissions left
    pend: HashMap<u32, (Member<W>, usize)>,
    items: HashMap<Vec<u8>, usize>,
    calls: u64,
    stream: u64,
    x: u64,
    me: W,
}
impl Run {
    fn exec(&mut self, f: impl FnOnce(&mut Foca<W, WC, McRng, WH>, &mut Rt) -> foca_result::R) -> Result<Rt, Bad> {
        self.calls += 1;
        let n = self.f.iter_membership_state().len() + 64;
        let script: Vec<u8> = match self.stream {
            0 => vec![],
            1 => vec![255; n],
            _ => (0..n)
                .map(|_| {
                    self.x = self.x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (self.x >> 56) as u8
                })
                .collect(),
        };
        let mut rt = Rt::default();
        let foca = &mut self.f;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            with_rng(256, &script, || f(foca, &mut rt))
        }));
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(("C13", "wide-result", format!("unexpected error {e}"))),
            Err(_) => return Err(("*", "panic", last_panic())),
        }
        self.judge(&rt)?;
        Ok(rt)
    }
    fn judge(&mut self, rt: &Rt) -> Result<(), Bad> {
        // C08: notifications mirror the membership
        for n in &rt.notes {
            match n {
                OwnedNotification::MemberUp(i) => {
                    if self.up.insert(i.a, *i).is_some() {
                        return Err(("C08", "wide-up", format!("MemberUp({i:?}) for one that is up")));
                    }
                }
                OwnedNotification::MemberDown(i) => {
                    if self.up.remove(&i.a) != Some(*i) {
                        return Err(("C08", "wide-down", format!("MemberDown({i:?}) for one that isn't up")));
                    }
                }
                OwnedNotification::Rename(a, b) => {
                    if b.a != a.a || b.g <= a.g {
                        return Err(("C09", "wide-rename", format!("Rename({a:?}, {b:?})")));
                    }
                    if let Some(x) = self.up.get_mut(&a.a) {
                        if x != a {
                            return Err(("C08", "wide-rename", format!("Rename({a:?}, {b:?}), listed as {x:?}")));
                        }
                        *x = *b;
                    }
                }
                _ => {}
            }
        }
        let now: BTreeSet<W> = self.f.iter_members().map(|m| *m.id()).collect();
        if now.len() != self.up.len() || self.up.values().any(|i| !now.contains(i)) || self.f.num_members() != now.len() {
            return Err((
                "C08",
                "wide-mirror",
                format!(
                    "notifications amount to {} members, iter_members yields {}, num_members() {}",
                    self.up.len(),
                    now.len(),
                    self.f.num_members()
                ),
            ));
        }
        let mut addrs = BTreeSet::new();
        for m in self.f.iter_membership_state() {
            if !addrs.insert(m.id().a) {
                return Err(("C09", "wide-two-records", format!("two records of address {}", m.id().a)));
            }
            if m.id().a == self.me.a && m.state() != State::Down {
                return Err(("C09", "wide-self", "own address listed active".into()));
            }
        }
        for (dst, d) in &rt.sends {
            if dst.a == self.me.a {
                return Err(("C19", "wide-self-dst", format!("sends to {dst:?}")));
            }
            if d.len() > self.cfg.max_packet_size.get() {
                return Err(("C07", "wide-size", format!("datagram of {} bytes", d.len())));
            }
            let p = parse_w(d).map_err(|e| ("C07", "wide-malformed", format!("{e} ({} bytes)", d.len())))?;
            if p.h.dst != *dst || p.h.src != self.me {
                return Err(("C07", "wide-header", format!("{:?} handed over for {dst:?}", p.h)));
            }
            if p.h.message == Message::Feed {
                for u in p.ups.iter().flatten() {
                    if u.id() == dst || u.id().a == self.me.a || self.up.get(&u.id().a) != Some(u.id()) {
                        return Err(("C07", "wide-feed", format!("Feed for {dst:?} lists {:?}", u.id())));
                    }
                }
            } else if let Some(us) = &p.ups {
                let mut least = usize::MAX;
                for u in us {
                    let Some((m, left)) = self.pend.get_mut(&u.id().a) else {
                        return Err(("C15", "wide-not-pending", format!("sends an update about {:?} that isn't pending", u.id())));
                    };
                    if m != u {
                        return Err(("C15", "wide-outdated", format!("sends {u:?}, the latest is {m:?}")));
                    }
                    least = least.min(*left);
                    *left -= 1;
                }
                let sent: BTreeSet<u32> = us.iter().map(|u| u.id().a).collect();
                if sent.len() != us.len() {
                    return Err(("C15", "wide-twice", "an update twice in one datagram".into()));
                }
                let used = 16 + 2 + us.len() * MEMBER;
                if self.cfg.max_packet_size.get() - used >= MEMBER
                    && us.len() < u16::MAX as usize
                    && us.len() < self.pend.len()
                {
                    return Err(("C15", "wide-omitted", format!("{} of {} pending updates sent in {used} bytes", us.len(), self.pend.len())));
                }
                if self.pend.iter().any(|(a, (_, l))| !sent.contains(a) && *l > least) {
                    return Err(("C15", "wide-precedence", format!("an update with {least} transmissions left sent before one with more")));
                }
                self.pend.retain(|_, (_, l)| *l > 0);
            }
            for i in &p.items {
                match self.items.get_mut(i) {
                    Some(0) | None => return Err(("C16", "wide-item", format!("sends item {i:?} which isn't pending"))),
                    Some(l) => *l -= 1,
                }
            }
            if matches!(p.h.message, Message::Broadcast) && p.ups.is_some() {
                return Err(("C16", "wide-broadcast", "Broadcast with updates".into()));
            }
        }
        self.items.retain(|_, l| *l > 0);
        if self.f.updates_backlog() != self.pend.len() {
            return Err(("C15", "wide-backlog", format!("backlog of {}, {} updates pending", self.f.updates_backlog(), self.pend.len())));
        }
        if self.f.custom_broadcast_backlog() != self.items.len() {
            return Err(("C16", "wide-backlog", format!("backlog of {}, {} items pending", self.f.custom_broadcast_backlog(), self.items.len())));
        }
        Ok(())
    }
    /// apply updates that all change something
    fn apply(&mut self, us: Vec<Member<W>>, bc: bool) -> Result<(), Bad> {
        if bc {
            let tx = self.cfg.max_transmissions.get() as usize;
            for u in &us {
                self.pend.insert(u.id().a, (u.clone(), tx));
            }
        }
        let _ = self.exec(move |f, rt| f.apply_many(us.into_iter(), bc, rt))?;
        Ok(())
    }
    fn data(&mut self, src: W, m: Message<W>) -> Result<Rt, Bad> {
        use foca::Codec;
        let mut d = Vec::new();
        let inc = self
            .f
            .iter_membership_state()
            .find(|m| m.id().a == src.a)
            .map_or(0, |m| m.incarnation());
        let _ = WC.encode_header(
            &Header {
                src,
                src_incarnation: inc,
                dst: self.me,
                message: m,
            },
            &mut d,
        );
        self.exec(|f, rt| f.handle_data(&d, rt))
    }
    fn rounds(&mut self, count: usize, answer: bool, probe: &mut Option<Timer<W>>, cur: &mut Option<(W, u8, Timer<W>)>) -> Result<(), Bad> {
        let n = self.up.len();
        let mut since: HashMap<u32, usize> = self.up.keys().map(|a| (*a, 0)).collect();
        for k in 0..count {
            if let Some((t, num, ind)) = cur.take() {
                if answer {
                    let _ = self.data(t, Message::Ack(num))?;
                }
                let rt = self.exec(|f, rt| f.handle_timer(ind, rt))?;
                let reqs: BTreeSet<W> = rt.sends.iter().map(|x| x.0).collect();
                if answer && self.up.get(&t.a) == Some(&t) && !reqs.is_empty() {
                    return Err(("C12", "wide-indirect-after-ack", format!("{} requests after the Ack", reqs.len())));
                }
                if reqs.len() != rt.sends.len() || reqs.len() > self.cfg.num_indirect_probes.get() {
                    return Err(("C12", "wide-relays", format!("{} requests to {} members", rt.sends.len(), reqs.len())));
                }
                if let Some(i) = reqs.iter().find(|i| **i == t || self.up.get(&i.a) != Some(i)) {
                    return Err(("C12", "wide-relay", format!("asks {i:?} to probe {t:?}")));
                }
            }
            let Some(p) = probe.take() else {
                return Err(("C13", "wide-no-probe", "no probe timer".into()));
            };
            // suspicions are told to others
            let before: Vec<Member<W>> = self.f.iter_members().filter(|m| m.state() == State::Alive).cloned().collect();
            let before: HashMap<u32, Member<W>> = before.into_iter().map(|m| (m.id().a, m)).collect();
            let pinged = self.probe_call(p, &before)?;
            for (t, _) in &pinged.timers {
                match t {
                    Timer::ProbeRandomMember(_) => *probe = Some(t.clone()),
                    Timer::SendIndirectProbe { probed_id, .. } => {
                        let num = pinged.sends.iter().find_map(|(d, b)| match parse_w(b) {
                            Ok(p) if d == probed_id => match p.h.message {
                                Message::Ping(n) => Some(n),
                                _ => None,
                            },
                            _ => None,
                        });
                        if let Some(n) = num {
                            *cur = Some((*probed_id, n, t.clone()));
                        }
                    }
                    _ => {}
                }
            }
            let pings: Vec<W> = pinged
                .sends
                .iter()
                .filter(|(_, b)| matches!(parse_w(b), Ok(p) if matches!(p.h.message, Message::Ping(_))))
                .map(|x| x.0)
                .collect();
            let &[t] = &pings[..] else {
                return Err(("C14", "wide-ping-count", format!("round {k} pinged {pings:?}")));
            };
            if self.up.get(&t.a) != Some(&t) {
                return Err(("C14", "wide-ping-inactive", format!("round {k} pinged {t:?}")));
            }
            for v in since.values_mut() {
                *v += 1;
            }
            since.insert(t.a, 0);
            if let Some((a, _)) = since.iter().find(|(_, v)| **v >= 2 * n - 1) {
                return Err(("C14", "wide-starved", format!("address {a} not pinged in {} rounds, {n} active", 2 * n - 1)));
            }
        }
        Ok(())
    }
    fn probe_call(&mut self, p: Timer<W>, before: &HashMap<u32, Member<W>>) -> Result<Rt, Bad> {
        self.calls += 1;
        // (like exec, but the accepted suspicion is known only afterwards)
        let n = self.f.iter_membership_state().len() + 64;
        let script: Vec<u8> = match self.stream {
            0 => vec![],
            1 => vec![255; n],
            _ => (0..n)
                .map(|_| {
                    self.x = self.x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (self.x >> 56) as u8
                })
                .collect(),
        };
        let mut rt = Rt::default();
        let foca = &mut self.f;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            with_rng(256, &script, || foca.handle_timer(p, &mut rt))
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(("C13", "wide-result", format!("unexpected error {e}"))),
            Err(_) => return Err(("*", "panic", last_panic())),
        }
        let tx = self.cfg.max_transmissions.get() as usize;
        let sus: Vec<Member<W>> = self
            .f
            .iter_members()
            .filter(|m| m.state() == State::Suspect && before.contains_key(&m.id().a))
            .cloned()
            .collect();
        for m in sus {
            self.pend.insert(m.id().a, (m, tx));
        }
        self.judge(&rt)?;
        Ok(rt)
    }
}
mod foca_result {
    pub type R = Result<(), foca::Error>;
}

/// Returns calls made.
fn run(n: u32, size: usize, tx: u8, stream: u64) -> Result<u64, Bad> {
    let mut c = cfg();
    c.max_packet_size = nz(size);
    c.max_transmissions = std::num::NonZeroU8::new(tx).unwrap();
    c.num_indirect_probes = nz(n as usize / 3 + 1);
    c.periodic_announce = None;
    c.periodic_gossip = None;
    c.periodic_announce_to_down_members = pp(1000, 2 * n as usize);
    let me = w(1, 5);
    let mut s = Run {
        f: Foca::with_custom_broadcast(me, c.clone(), McRng(0), WC, WH),
        cfg: c,
        up: BTreeMap::new(),
        pend: HashMap::new(),
        items: HashMap::new(),
        calls: 0,
        stream,
        x: stream.wrapping_mul(0x9e37_79b9_7f4a_7c15),
        me,
    };
    let big = n > 5_000;
    // joins, in an order that isn't sorted
    let addr = |k: u32| 2 + (k.wrapping_mul(7919)) % n;
    let mut probe = None;
    let mut cur = None;
    let mut down_timer = None;
    let all: Vec<Member<W>> = {
        let mut seen = BTreeSet::new();
        let mut v: Vec<u32> = (0..n).map(addr).filter(|a| seen.insert(*a)).collect();
        v.extend((2..2 + n).filter(|a| !seen.contains(a)));
        v.into_iter().map(|a| Member::new(w(a, 0), (a % 3) as u16, State::Alive)).collect()
    };
    for u in &all {
        s.pend.insert(u.id().a, (u.clone(), tx as usize));
    }
    let rt = s.exec(|f, rt| f.apply_many(all.iter().cloned(), true, rt))?;
    for (t, _) in &rt.timers {
        match t {
            Timer::ProbeRandomMember(_) => probe = Some(t.clone()),
            Timer::PeriodicAnnounceDown(_) => down_timer = Some(t.clone()),
            _ => {}
        }
    }
    if probe.is_none() || down_timer.is_none() {
        return Err(("C13", "wide-timers", format!("active, timers {:?}", rt.timers)));
    }
    // drain the updates
    let per = (size - 18) / MEMBER;
    let drain = (n as usize * tx as usize).div_ceil(per.min(65_535)) + 2;
    for k in 0..drain.min(if big { 40 } else { usize::MAX }) {
        let m = match k % 3 {
            0 => Message::Ping(k as u8),
            1 => Message::Announce,
            _ => Message::PingReq { target: w(2, 0), probe_number: 1 },
        };
        let _ = s.data(w(2 + (k as u32 % n), 0), m)?;
    }
    while !s.pend.is_empty() && !big {
        if s.calls > 200_000 {
            return Err(("C15", "wide-never-drained", format!("{} updates still pending", s.pend.len())));
        }
        let _ = s.exec(|f, rt| f.gossip(rt))?;
    }
    // items
    let items = if big { 1_000 } else { n };
    for k in 0..items {
        let mut d = k.to_be_bytes().to_vec();
        d.resize(4 + (k % 5) as usize, 7);
        s.items.insert(d.clone(), tx as usize);
        let _ = s.exec(|f, _| f.add_broadcast(&d).map(|_| ()))?;
    }
    while !s.items.is_empty() {
        if s.calls > 400_000 {
            return Err(("C16", "wide-never-drained", format!("{} items still pending", s.items.len())));
        }
        let was = s.items.len();
        let rt = s.exec(|f, rt| f.broadcast(rt))?;
        let dsts: BTreeSet<W> = rt.sends.iter().map(|x| x.0).collect();
        if dsts.len() != rt.sends.len() || dsts.len() > s.cfg.num_indirect_probes.get() {
            return Err(("C16", "wide-fan-out", format!("{} datagrams to {} members", rt.sends.len(), dsts.len())));
        }
        if rt.sends.is_empty() && was > 0 {
            return Err(("C16", "wide-silent", format!("{was} items pending, nothing sent")));
        }
    }
    // rounds
    let windows = |s: &Run, k: usize| if big { 50 } else { k * (2 * s.up.len() - 1) };
    let k = windows(&s, 2) + 3;
    s.rounds(k, true, &mut probe, &mut cur)?;
    s.rounds(if big { 20 } else { n as usize / 2 }, false, &mut probe, &mut cur)?;
    // a third goes Down, a fifth of the rest renews, a few come new; feeds and announces
    let down: Vec<Member<W>> = s
        .f
        .iter_members()
        .filter(|m| m.id().a % 3 == 0)
        .map(|m| Member::new(*m.id(), m.incarnation(), State::Down))
        .collect();
    s.apply(down.clone(), true)?;
    let renew: Vec<Member<W>> = s
        .f
        .iter_membership_state()
        .filter(|m| m.id().a % 5 == 1)
        .map(|m| Member::new(w(m.id().a, 1), 0, State::Alive))
        .collect();
    s.apply(renew, false)?;
    // (what was pending about the renewed ones still is, as broadcasting was off)
    s.apply((0..50).map(|k| Member::alive(w(100_000 + k, 0))).collect(), true)?;
    let live = s.up.values().next().copied().unwrap_or(me);
    let rt = s.data(live, Message::Announce)?;
    let _ = rt;
    let rt = s.exec(|f, rt| f.handle_timer(down_timer.clone().unwrap(), rt))?;
    let downs: BTreeSet<W> = s
        .f
        .iter_membership_state()
        .filter(|m| m.state() == State::Down)
        .map(|m| *m.id())
        .collect();
    if rt.sends.iter().any(|(d, _)| !downs.contains(d)) {
        return Err(("C19", "wide-announce-down", "announces to members that aren't Down".into()));
    }
    let k = windows(&s, 2) + 3;
    s.rounds(k, true, &mut probe, &mut cur)?;
    // forgetting all of them
    for d in downs.into_iter().take(if big { 300 } else { usize::MAX }) {
        let _ = s.exec(|f, rt| f.handle_timer(Timer::RemoveDown(d), rt))?;
    }
    if !big && s.f.iter_membership_state().any(|m| m.state() == State::Down) {
        return Err(("C11", "wide-not-forgotten", "Down members left after their forget-timers".into()));
    }
    s.data(live, Message::TurnUndead).map(|_| ()).or_else(|e| if e.1 == "panic" { Err(e) } else { Ok(()) })?;
    Ok(s.calls)
}

/// `prop`'s verdicts about such instances (everybody reports panics and unexpected errors).
pub fn wide(r: &mut Report) {
    if r.only.is_some() {
        return;
    }
    let t = r.thorough();
    let prop = r.prop.clone();
    let mut jobs = Vec::new();
    for n in if t { vec![255u32, 256, 257, 300, 513, 1000] } else { vec![257u32, 300, 520] } {
        for (size, tx) in [(1400usize, 2u8), (65_535, 3), (60, 1)] {
            for stream in 0..if t { 6 } else { 3 } {
                jobs.push((n, size, tx, stream));
            }
        }
    }
    if t {
        jobs.push((66_000, 1 << 20, 2, 0));
        jobs.push((66_000, 1400, 1, 2));
    }
    let mut calls = 0u64;
    r.jobs(
        &jobs,
        |&(n, size, tx, stream)| match run(n, size, tx, stream) {
            Ok(k) => Ok(k),
            Err((p, sig, m)) if p == "*" || p == prop => {
                let what = format!("{n} members, packets of {size} bytes, max_transmissions {tx}, RNG stream {stream}");
                Err((
                    Viol {
                        sig: sig.into(),
                        msg: format!("{m} ({what})"),
                    },
                    format!("init: {what}"),
                ))
            }
            Err(e) => {
                // (another property's business; none on the unchanged tree)
                if std::env::var_os("MC_LINT").is_some() {
                    eprintln!("LINT wide({n}, {size}, {tx}, {stream}) ended early: {e:?}");
                }
                Ok(0)
            }
        },
        |k| calls += k,
    );
    r.transitions += calls;
    r.scope_line(format!("hundreds-of-members: {} histories, {calls} calls", jobs.len()));
}
