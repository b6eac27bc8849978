//! Real instances using the bundled codecs: every datagram they send, at every packet size and
//! after every short sequence of operations, must be well-formed - whatever failed to fit half
//! way - and no truncated or mutated datagram may do worse than be rejected.
use crate::explore::*;
use crate::guard::call;
use crate::ids::*;
use crate::values::{fail, messages, Fail};
use crate::Sel;
use bytes::Buf;
use foca::{
    BroadcastHandler, Codec, Config, Foca, Header, Invalidates, Member, Message, Notification, Runtime, State, Timer,
};
use std::num::{NonZeroU8, NonZeroUsize};
use std::time::Duration;

/// always the same answer: enough to permute feeds
#[derive(Clone)]
struct Rng(u32);
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.0 = self.0.rotate_left(7) ^ 0x9e37_79b9;
        self.0
    }
    fn next_u64(&mut self) -> u64 {
        ((self.next_u32() as u64) << 32) | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.next_u32() as u8;
        }
    }
}

struct Key(Vec<u8>);
impl Invalidates for Key {
    fn invalidates(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
#[derive(Debug)]
struct NoErr;
impl std::fmt::Display for NoErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("NoErr")
    }
}
impl std::error::Error for NoErr {}
struct Hnd;
impl<T> BroadcastHandler<T> for Hnd {
    type Key = Key;
    type Error = NoErr;
    fn receive_item(&mut self, data: &[u8], _s: Option<&T>) -> Result<Option<Key>, NoErr> {
        Ok(Some(Key(data.to_vec())))
    }
}

struct Rt<T> {
    sent: Vec<(T, Vec<u8>)>,
    timers: Vec<Timer<T>>,
}
impl<T: Id> Runtime<T> for Rt<T> {
    fn notify(&mut self, _n: Notification<'_, T>) {}
    fn send_to(&mut self, to: T, data: &[u8]) {
        self.sent.push((to, data.to_vec()));
    }
    fn submit_after(&mut self, e: Timer<T>, _d: Duration) {
        self.timers.push(e);
    }
}

fn cfg(p: usize) -> Config {
    let mut c = Config::simple();
    c.max_packet_size = NonZeroUsize::new(p).unwrap();
    c.max_transmissions = NonZeroU8::new(2).unwrap();
    c.num_indirect_probes = NonZeroUsize::new(2).unwrap();
    c
}

type F<T, C> = Foca<T, C, Rng, Hnd>;
fn items() -> Vec<Vec<u8>> {
    vec![vec![7], (0..40u8).collect(), vec![0xff; 9]]
}
fn known<T: Id>(ids: &[T]) -> Vec<Member<T>> {
    let incs = [0u16, 0, 127, 128, 250, 251, 16384, 65535, 7];
    let sts = [State::Alive, State::Alive, State::Alive, State::Alive, State::Suspect, State::Alive, State::Down, State::Alive, State::Alive];
    ids.iter().enumerate().skip(1).map(|(i, id)| Member::new(id.clone(), incs[i], sts[i])).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Announce,
    Gossip,
    Asked,
    Pinged,
    Probe,
    Indirect,
    PingReq,
    Broadcast,
    Items,
    Leave,
}
const OPS: [Op; 10] = [
    Op::Asked,
    Op::Gossip,
    Op::Pinged,
    Op::Probe,
    Op::Indirect,
    Op::PingReq,
    Op::Broadcast,
    Op::Items,
    Op::Announce,
    Op::Leave,
];

fn header<T: Id, C: Codec<T>>(mut c: C, src: &T, dst: &T, m: Message<T>) -> Vec<u8> {
    let mut v = Vec::new();
    let h = Header { src: src.clone(), src_incarnation: 0, dst: dst.clone(), message: m };
    let _ = c.encode_header(&h, &mut v);
    v
}

fn setup<T: Id, C>(s: &Sel<C>, ids: &[T], p: usize, rng: u32) -> Result<(F<T, C>, Rt<T>), String>
where
    C: Codec<T> + Copy,
    C::Error: std::error::Error + Send,
{
    let mut rt = Rt { sent: vec![], timers: vec![] };
    let f = call(|| {
        let mut f = Foca::with_custom_broadcast(ids[0].clone(), cfg(p), Rng(rng), s.codec, Hnd);
        let _ = f.apply_many(known(ids).into_iter(), true, &mut rt);
        f
    })?;
    Ok((f, rt))
}

fn step<T: Id, C>(s: &Sel<C>, ids: &[T], f: &mut F<T, C>, rt: &mut Rt<T>, op: Op) -> Result<(), String>
where
    C: Codec<T> + Copy,
    C::Error: std::error::Error + Send,
{
    let last = |rt: &Rt<T>, ind: bool| {
        rt.timers
            .iter()
            .rposition(|t| if ind { matches!(t, Timer::SendIndirectProbe { .. }) } else { matches!(t, Timer::ProbeRandomMember(_)) })
    };
    call(|| {
        // whether the call succeeds is not this property's business (a header may not fit)
        let _ = match op {
            Op::Announce => f.announce(ids[3].clone(), &mut *rt),
            Op::Gossip => f.gossip(&mut *rt),
            Op::Asked => f.handle_data(&header(s.codec, &ids[3], &ids[0], Message::Announce), &mut *rt),
            Op::Pinged => f.handle_data(&header(s.codec, &ids[2], &ids[0], Message::Ping(200)), &mut *rt),
            Op::PingReq => {
                let m = Message::PingReq { target: ids[5].clone(), probe_number: 255 };
                f.handle_data(&header(s.codec, &ids[1], &ids[0], m), &mut *rt)
            }
            Op::Probe | Op::Indirect => match last(rt, op == Op::Indirect) {
                Some(i) => {
                    let t = rt.timers.remove(i);
                    f.handle_timer(t, &mut *rt)
                }
                None => Ok(()),
            },
            Op::Broadcast => f.broadcast(&mut *rt),
            Op::Items => {
                for i in items() {
                    let _ = f.add_broadcast(&i);
                }
                Ok(())
            }
            Op::Leave => f.leave_cluster(&mut *rt),
        };
    })
}

/// Parse a datagram by its documented layout; returns how many members and items it carries.
fn judge<T: Id, C: Codec<T> + Copy>(s: &Sel<C>, ids: &[T], p: usize, to: &T, d: &[u8]) -> Result<(usize, usize), String> {
    let mut c = s.codec;
    if d.len() > p {
        return Err(format!("{} bytes with max_packet_size {p}", d.len()));
    }
    let mut b = d;
    let h: Header<T> = c.decode_header(&mut b).map_err(|e| format!("header: {e}"))?;
    if h.src != ids[0] || h.dst != *to {
        return Err(format!("header names {:?} -> {:?}, sent to {to:?}", h.src, h.dst));
    }
    let bare = matches!(h.message, Message::Announce | Message::TurnUndead);
    let list = !bare && !matches!(h.message, Message::Broadcast);
    if bare && !b.is_empty() {
        return Err(format!("{} bytes after {:?}", b.len(), h.message));
    }
    let mut nm = 0;
    // a header that leaves no room for the count goes alone
    if list && !b.is_empty() {
        if b.remaining() < 2 {
            return Err("one byte where the count goes".into());
        }
        let n = b.get_u16();
        for i in 0..n {
            let m: Member<T> = c.decode_member(&mut b).map_err(|e| format!("member {i} of {n}: {e}"))?;
            // nothing but what the instance was told, possibly refined
            if !ids.contains(m.id()) {
                return Err(format!("member {i} of {n} is nobody: {m:?}"));
            }
            nm += 1;
        }
    }
    let mut ni = 0;
    while !b.is_empty() {
        if b.remaining() < 2 {
            return Err("one byte where an item's length goes".into());
        }
        let l = b.get_u16() as usize;
        if b.remaining() < l {
            return Err(format!("item of {l} bytes, {} left", b.remaining()));
        }
        if !items().iter().any(|i| i[..] == b[..l]) {
            return Err(format!("unknown item {:?}", &b[..l]));
        }
        b.advance(l);
        ni += 1;
    }
    Ok((nm, ni))
}

pub fn run<T: Id, C>(r: &mut Report, s: Sel<C>)
where
    C: Codec<T> + Copy + Send + Sync + 'static,
    C::Error: std::error::Error + Send,
{
    if r.failed() {
        return;
    }
    let t = r.thorough();
    let ids = T::cluster();
    let mut s0 = s;
    let whole: usize = {
        // everything fits somewhere below this size
        let mut n = 0;
        for m in known(&ids) {
            let mut v = Vec::new();
            let _ = s0.codec.encode_member(&m, &mut v);
            n += v.len();
        }
        n + header(s.codec, &ids[0], &ids[1], Message::PingReq { target: ids[5].clone(), probe_number: 0 }).len() + 80
    };
    let depth = if t { 3 } else { 2 };
    let rngs: &[u32] = if t { &[1, 0xdead_beef, 0x1234_5678, 77] } else { &[1, 0xdead_beef] };
    let sizes: Vec<usize> = (1..=whole.min(900)).collect();
    let mut seqs: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = Vec::new();
        for q in &seqs {
            for o in OPS {
                let mut q = q.clone();
                q.push(o);
                next.push(q);
            }
        }
        seqs = next;
    }
    if !t {
        // deeper where it matters: repeated packing with items around
        for a in [Op::Asked, Op::Gossip, Op::Probe, Op::Broadcast] {
            for b in [Op::Asked, Op::Gossip, Op::Pinged, Op::Leave] {
                seqs.push(vec![Op::Items, a, b]);
                seqs.push(vec![a, Op::Items, b]);
            }
        }
    }
    let (mut n, mut dg, mut mem, mut its) = (0u64, 0u64, 0u64, 0u64);
    let mut short = 0u64;
    let ids = &ids;
    r.jobs(
        &sizes,
        |&p| {
            let (mut n, mut dg, mut mem, mut its, mut short) = (0, 0, 0, 0, 0);
            let tr = |q: &[Op], rng: u32| format!("{} identities, {}, max_packet_size {p}, rng {rng}: {:?}", T::NAME, s.name, q);
            for &rng in rngs {
                for q in &seqs {
                    let (mut f, mut rt) = match setup(&s, ids, p, rng) {
                        Ok(x) => x,
                        Err(e) => return fail("panic", format!("setting up panicked: {e}"), tr(&[], rng)),
                    };
                    let from = rt.sent.len();
                    let mut seen = from;
                    for (i, o) in q.iter().enumerate() {
                        n += 1;
                        if let Err(e) = step(&s, ids, &mut f, &mut rt, *o) {
                            return fail("panic", format!("{o:?} panicked: {e}"), tr(&q[..=i], rng));
                        }
                        while seen < rt.sent.len() {
                            let (to, d) = &rt.sent[seen];
                            seen += 1;
                            dg += 1;
                            match judge(&s, ids, p, to, d) {
                                Ok((a, b)) => {
                                    mem += a as u64;
                                    its += b as u64;
                                    short += (a < 8) as u64;
                                }
                                Err(e) => return fail("malformed", format!("malformed datagram: {e}"), format!("{} datagram {d:02x?}", tr(&q[..=i], rng))),
                            }
                            // the addressee takes it
                            let mut prt = Rt { sent: vec![], timers: vec![] };
                            let res = call(|| {
                                let mut peer = Foca::with_custom_broadcast(to.clone(), cfg(usize::max(p, 1400)), Rng(3), s.codec, Hnd);
                                peer.handle_data(d, &mut prt).map_err(|e| e.to_string())
                            });
                            n += 1;
                            match res {
                                Ok(Ok(())) => {}
                                Ok(Err(e)) => return fail("rejected", format!("the addressee rejects the datagram: {e}"), format!("{} datagram {d:02x?}", tr(&q[..=i], rng))),
                                Err(e) => return fail("panic", format!("the addressee panics: {e}"), format!("{} datagram {d:02x?}", tr(&q[..=i], rng))),
                            }
                        }
                    }
                }
            }
            Ok((n, dg, mem, its, short))
        },
        |(a, b, c, d, e)| {
            n += a;
            dg += b;
            mem += c;
            its += d;
            short += e;
        },
    );
    r.scope_line(format!(
        "datagrams {} {}: packet sizes 1..={}, {} operation sequences x {} rngs, {n} calls, {dg} datagrams, {mem} members, {its} items",
        T::NAME, s.name, sizes.len(), seqs.len(), rngs.len()
    ));
    r.states += dg;
    r.transitions += n;
    r.validated += n;
    r.count("datagrams_judged", dg);
    r.count("datagrams_with_fewer_than_8_members", short);
    hostile(r, s, ids);
}

/// Truncated and mutated datagrams into a real instance.
fn hostile<T: Id, C>(r: &mut Report, s: Sel<C>, ids: &[T])
where
    C: Codec<T> + Copy + Send + Sync + 'static,
    C::Error: std::error::Error + Send,
{
    let t = r.thorough();
    // datagrams a peer would send: every message, three members and two items behind it
    let mut seeds: Vec<Vec<u8>> = Vec::new();
    for m in messages(&ids[4], 251) {
        let bare = matches!(m, Message::Announce | Message::TurnUndead);
        let list = !bare && m != Message::Broadcast;
        let mut d = header(s.codec, &ids[3], &ids[0], m);
        let mut c = s.codec;
        if list {
            d.extend_from_slice(&[0, 3]);
            for k in [1, 4, 5] {
                let _ = c.encode_member(&known(ids)[k], &mut d);
            }
        }
        if !bare {
            for i in items() {
                d.extend_from_slice(&(i.len() as u16).to_be_bytes());
                d.extend_from_slice(&i);
            }
        }
        seeds.push(d);
    }
    let mut jobs = Vec::new();
    for (i, d) in seeds.iter().enumerate() {
        for p in 0..d.len() {
            jobs.push((i, p));
        }
    }
    let risky = |b: &[u8]| s.nolimit && T::HEAP && (s.fixed || b.iter().any(|x| *x >= 252));
    let mut n = 0u64;
    r.jobs(
        &jobs,
        |&(i, p)| {
            let d = &seeds[i];
            let mut n = 0;
            let mut vals: Vec<u8> = (0..=255).collect();
            if !t {
                let b = d[p];
                vals.retain(|v| [0, 1, 2, 0x7f, 0x80, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, b ^ 1, b ^ 0x80, b.wrapping_add(1)].contains(v));
            }
            let mut go = |m: &[u8]| -> Result<(), Fail> {
                if risky(m) {
                    return Ok(());
                }
                n += 1;
                let tr = || format!("{} identities, {}: datagram {m:02x?}", T::NAME, s.name);
                let (mut f, mut rt) = match setup(&s, ids, 200, 1) {
                    Ok(x) => x,
                    Err(e) => return fail("panic", e, tr()),
                };
                match call(|| {
                    let _ = f.handle_data(m, &mut rt);
                }) {
                    Ok(()) => Ok(()),
                    Err(e) => fail("panic", format!("handling a datagram panicked: {e}"), tr()),
                }
            };
            go(&d[..p])?;
            for v in vals {
                let mut m = d.clone();
                m[p] = v;
                go(&m)?;
                if v % 64 == 0 {
                    m.truncate(p + 1);
                    go(&m)?;
                }
            }
            Ok(n)
        },
        |a| n += a,
    );
    r.transitions += n;
    r.validated += n;
    r.scope_line(format!("hostile {} {}: {n} mutated or truncated datagrams", T::NAME, s.name));
}
