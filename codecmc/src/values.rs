//! Every header and member value of the menus, alone: round trip, trailing data, every buffer
//! size, truncations, mutations, and all short byte strings.
use crate::explore::*;
use crate::guard::call;
use crate::ids::*;
use crate::Sel;
use bytes::{Buf, BufMut, BytesMut};
use foca::{Codec, Header, Member, Message, State};

#[derive(Clone, Debug, PartialEq)]
pub enum Item<T> {
    H(Header<T>),
    M(Member<T>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    H,
    M,
}
pub const KINDS: [Kind; 2] = [Kind::H, Kind::M];

impl<T: Id> Item<T> {
    fn kind(&self) -> Kind {
        match self {
            Item::H(_) => Kind::H,
            Item::M(_) => Kind::M,
        }
    }
}

pub type Fail = (Viol, String);
pub fn fail<R>(sig: &str, msg: String, tr: String) -> Result<R, Fail> {
    Err((
        Viol {
            sig: sig.into(),
            msg,
        },
        tr,
    ))
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(600) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 600 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
fn clip(mut s: String) -> String {
    if s.len() > 900 {
        let mut n = 900;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("..");
    }
    s
}

/// `Ok(Err(text))`: the codec returned an error.
fn enc<T: Id, C: Codec<T> + Copy>(c: C, i: &Item<T>, b: &mut impl BufMut) -> Result<Result<(), String>, String> {
    let mut c = c;
    call(|| match i {
        Item::H(h) => c.encode_header(h, b).map_err(|e| e.to_string()),
        Item::M(m) => c.encode_member(m, b).map_err(|e| e.to_string()),
    })
}
fn dec<T: Id, C: Codec<T> + Copy>(c: C, k: Kind, b: &mut impl Buf) -> Result<Result<Item<T>, ()>, String> {
    let mut c = c;
    call(|| match k {
        Kind::H => c.decode_header(b).map(Item::H).map_err(|_| ()),
        Kind::M => c.decode_member(b).map(Item::M).map_err(|_| ()),
    })
}

/// A contiguous buffer that panics when moved past its end or read past what it holds.
struct Strict<'a> {
    data: &'a [u8],
    pos: usize,
}
impl Buf for Strict<'_> {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        &self.data[self.pos..]
    }
    fn advance(&mut self, cnt: usize) {
        assert!(cnt <= self.remaining(), "advanced past the end of the input");
        self.pos += cnt;
    }
}

fn ctx<T: Id, C>(s: &Sel<C>) -> String {
    format!("{} identities, {}", T::NAME, s.name)
}

/// Encode into an unbounded buffer; decode alone and followed by `tails`.
pub fn round<T: Id, C: Codec<T> + Copy>(s: &Sel<C>, i: &Item<T>, tails: &[&[u8]], n: &mut u64) -> Result<Vec<u8>, Fail> {
    let tr = || format!("{}: {}", ctx::<T, C>(s), clip(format!("{i:?}")));
    let mut b: Vec<u8> = Vec::with_capacity(64);
    *n += 1;
    match enc(s.codec, i, &mut b) {
        Err(p) => return fail("panic", format!("encoding panicked: {p}"), tr()),
        Ok(Err(e)) => return fail("encode", format!("not encodable into an unbounded buffer: {e}"), tr()),
        Ok(Ok(())) => {}
    }
    let len = b.len();
    for t in tails {
        b.truncate(len);
        b.extend_from_slice(t);
        *n += 1;
        let mut st = Strict { data: &b, pos: 0 };
        match dec::<T, C>(s.codec, i.kind(), &mut st) {
            Err(p) => return fail("panic", format!("decoding a valid encoding panicked: {p}"), format!("{} bytes={}", tr(), hex(&b))),
            Ok(Err(())) => return fail("decode-valid", "a valid encoding is rejected".into(), format!("{} bytes={}", tr(), hex(&b))),
            Ok(Ok(v)) => {
                if v != *i {
                    return fail("not-equal", format!("decodes to another value: {}", clip(format!("{v:?}"))), format!("{} bytes={}", tr(), hex(&b)));
                }
                if st.pos != len {
                    return fail("consumed", format!("decoding consumed {} bytes of the {len} produced", st.pos), format!("{} bytes={}", tr(), hex(&b)));
                }
            }
        }
    }
    b.truncate(len);
    // the buffer type Foca itself decodes from
    let mut sl: &[u8] = &b;
    *n += 1;
    match dec::<T, C>(s.codec, i.kind(), &mut sl) {
        Ok(Ok(v)) if v == *i && sl.is_empty() => {}
        x => return fail("not-equal", format!("decoding from a slice: {:?}, {} bytes left", x.map(|r| r.is_ok()), sl.len()), tr()),
    }
    Ok(b)
}

/// Every destination of every size below the encoded length must be refused, without panicking;
/// the exact size must do.
fn buffers<T: Id, C: Codec<T> + Copy>(s: &Sel<C>, i: &Item<T>, e: &[u8], n: &mut u64) -> Result<(), Fail> {
    let tr = |k: &str, sz: usize| format!("{}: {} into {k} of {sz} bytes ({} needed)", ctx::<T, C>(s), clip(format!("{i:?}")), e.len());
    let len = e.len();
    let sizes: Vec<usize> = if len <= 700 {
        (0..=len + 2).collect()
    } else {
        (0..300).chain(len - 300..=len + 2).collect()
    };
    const PRE: &[u8] = &[0xAA, 0x55, 0xC3];
    for sz in sizes {
        for kind in ["vec-limit", "bytesmut-limit", "slice", "chain"] {
            let mut got: Vec<u8>;
            let res;
            let mut ok_prefix = true;
            match kind {
                "vec-limit" => {
                    let mut v = PRE.to_vec();
                    let mut l = (&mut v).limit(sz);
                    res = enc(s.codec, i, &mut l);
                    ok_prefix = v.starts_with(PRE) && v.len() <= PRE.len() + sz;
                    got = v.split_off(PRE.len().min(v.len()));
                }
                "bytesmut-limit" => {
                    let mut v = BytesMut::with_capacity(1);
                    v.extend_from_slice(PRE);
                    let mut l = (&mut v).limit(sz);
                    res = enc(s.codec, i, &mut l);
                    ok_prefix = v.starts_with(PRE) && v.len() <= PRE.len() + sz;
                    got = v[PRE.len().min(v.len())..].to_vec();
                }
                "slice" => {
                    let mut v = vec![0xEEu8; sz + PRE.len()];
                    let mut sl = &mut v[..sz];
                    res = enc(s.codec, i, &mut sl);
                    let left = sl.len();
                    ok_prefix = v[sz..] == [0xEE; 3];
                    v.truncate(sz - left);
                    got = v;
                }
                _ => {
                    // not contiguous: the space is split in two at every third point
                    got = vec![];
                    let mut r0 = Ok(Ok(()));
                    for cut in (0..=sz).step_by(if len > 100 { 29 } else { 3 }) {
                        let mut a = vec![0u8; cut];
                        let mut b = vec![0u8; sz - cut];
                        let left = {
                            let mut ch = (&mut a[..]).chain_mut(&mut b[..]);
                            r0 = enc(s.codec, i, &mut ch);
                            ch.remaining_mut()
                        };
                        *n += 1;
                        got = a;
                        got.extend_from_slice(&b);
                        got.truncate(sz - left);
                        match &r0 {
                            Ok(Ok(())) if sz >= len && got == e => {}
                            Ok(Err(_)) if sz < len => {}
                            _ => break,
                        }
                    }
                    res = r0;
                }
            }
            *n += 1;
            if !ok_prefix {
                return fail("buffer-overrun", "bytes outside the space given were touched".into(), tr(kind, sz));
            }
            match res {
                Err(p) => return fail("panic", format!("encoding panicked: {p}"), tr(kind, sz)),
                Ok(Ok(())) if sz < len => return fail("short-buffer-accepted", "encoding into too small a buffer succeeded".into(), tr(kind, sz)),
                Ok(Ok(())) => {
                    if got != e {
                        return fail("short-buffer-bytes", format!("other bytes than into an unbounded buffer: {}", hex(&got)), tr(kind, sz));
                    }
                }
                Ok(Err(x)) if sz >= len => return fail("encode", format!("refused although it fits: {x}"), tr(kind, sz)),
                Ok(Err(_)) => {}
            }
        }
    }
    Ok(())
}

/// Any input at all: a value or an error. A value must itself round-trip, and must depend on
/// nothing but what was consumed.
pub fn arbitrary<T: Id, C: Codec<T> + Copy>(s: &Sel<C>, k: Kind, b: &[u8], n: &mut u64, oks: &mut u64) -> Result<(), Fail> {
    *n += 1;
    let tr = || format!("{}: decoding a {k:?} from {} bytes {}", ctx::<T, C>(s), b.len(), hex(b));
    let mut st = Strict { data: b, pos: 0 };
    match dec::<T, C>(s.codec, k, &mut st) {
        Err(p) => {
            let sig = if p.contains("capacity overflow") { "capacity-overflow" } else { "panic" };
            fail(sig, format!("decoding panicked: {p}"), tr())
        }
        Ok(Err(())) => Ok(()),
        Ok(Ok(v)) => {
            *oks += 1;
            let used = st.pos;
            *n += 1;
            let mut st = Strict { data: &b[..used], pos: 0 };
            match dec::<T, C>(s.codec, k, &mut st) {
                Ok(Ok(w)) if w == v && st.pos == used => {}
                x => return fail("reads-ahead", format!("the value decoded depends on bytes not consumed ({used} were): {:?}", x.map(|r| r.is_ok())), tr()),
            }
            round::<T, C>(s, &v, &[&[], &[0xff, 0]], n).map(|_| ())
        }
    }
}

pub fn messages<T: Id>(t: &T, pn: u8) -> Vec<Message<T>> {
    let t = || t.clone();
    vec![
        Message::Ping(pn),
        Message::Ack(pn),
        Message::PingReq { target: t(), probe_number: pn },
        Message::IndirectPing { origin: t(), probe_number: pn },
        Message::IndirectAck { target: t(), probe_number: pn },
        Message::ForwardedAck { origin: t(), probe_number: pn },
        Message::Announce,
        Message::Feed,
        Message::Gossip,
        Message::Broadcast,
        Message::TurnUndead,
    ]
}

const INCS: [u16; 14] = [0, 1, 127, 128, 250, 251, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535];
const STATES: [State; 3] = [State::Alive, State::Suspect, State::Down];
const TAILS: [&[u8]; 6] = [&[], &[0], &[0xff], &[0x80, 0x80, 0x80], &[0xfb, 0xfc, 0xfd, 0xfe, 0xff], &[1; 40]];

/// inputs on which unlimited bincode may allocate according to a huge length prefix: judged apart
fn risky<T: Id, C>(s: &Sel<C>, b: &[u8]) -> bool {
    s.nolimit && T::HEAP && (s.fixed || b.iter().any(|x| *x >= 252))
}

pub fn run<T: Id, C: Codec<T> + Copy + Send + Sync>(r: &mut Report, s: Sel<C>) {
    if r.failed() {
        return;
    }
    let t = r.thorough();
    let menu = T::menu();
    let all = T::all();
    let brief = !t && cfg!(debug_assertions);
    let mut n = 0u64;
    let mut oks = 0u64;
    let mut distinct = 0u64;

    // members: every incarnation and state x boundary identities; every identity x boundaries
    let step = 2048;
    let jobs: Vec<u32> = (0..65536u32).step_by(step).collect();
    r.jobs(
        &jobs,
        |&a| {
            let (mut n, mut d) = (0, 0);
            for inc in a..a + step as u32 {
                for (x, id) in menu.iter().enumerate() {
                    // every identity with every boundary, a few with everything
                    if !t && x % 4 != (inc as usize) % 4 {
                        continue;
                    }
                    for st in STATES {
                        let m = Item::M(Member::new(id.clone(), inc as u16, st));
                        round::<T, C>(&s, &m, &[&[], TAILS[1 + inc as usize % 5]], &mut n)?;
                        d += 1;
                    }
                    let h = Item::H(Header {
                        src: id.clone(),
                        src_incarnation: inc as u16,
                        dst: menu[(x + 1) % menu.len()].clone(),
                        message: messages(&menu[(x + 2) % menu.len()], inc as u8)[inc as usize % 11].clone(),
                    });
                    round::<T, C>(&s, &h, &[&[], TAILS[1 + inc as usize % 5]], &mut n)?;
                    d += 1;
                }
            }
            Ok((n, d))
        },
        |(a, b)| {
            n += a;
            distinct += b
        },
    );
    let jobs: Vec<&[T]> = all.chunks(all.len().div_ceil(64).max(1)).collect();
    r.jobs(
        &jobs,
        |ids| {
            let (mut n, mut d) = (0, 0);
            for id in ids.iter() {
                for inc in if t { &INCS[..] } else { &[0u16, 251, 65535][..] } {
                    for st in STATES {
                        round::<T, C>(&s, &Item::M(Member::new(id.clone(), *inc, st)), &TAILS[..], &mut n)?;
                        d += 1;
                    }
                    for m in messages(id, *inc as u8) {
                        let h = Item::H(Header { src: id.clone(), src_incarnation: *inc, dst: id.clone(), message: m });
                        round::<T, C>(&s, &h, &[&[], &[0xff; 3]], &mut n)?;
                        d += 1;
                    }
                }
            }
            Ok((n, d))
        },
        |(a, b)| {
            n += a;
            distinct += b
        },
    );
    // headers: every message, every probe number, every ordered pair of identities, boundary
    // incarnations, every tail
    let pairs: Vec<(usize, usize)> = (0..menu.len()).flat_map(|a| (0..menu.len()).map(move |b| (a, b))).collect();
    r.jobs(
        &pairs,
        |&(a, b)| {
            let (mut n, mut d) = (0, 0);
            for pn in 0..=255u8 {
                for (k, m) in messages(&menu[(a + 3 * b + pn as usize) % menu.len()], pn).into_iter().enumerate() {
                    if k >= 6 && pn > 0 {
                        break;
                    }
                    let incs: &[u16] = if t || k >= 6 { &INCS } else { &[INCS[(pn as usize + a) % INCS.len()]] };
                    for &inc in incs {
                        let h = Item::H(Header { src: menu[a].clone(), src_incarnation: inc, dst: menu[b].clone(), message: m.clone() });
                        let tails = if t || a == b { &TAILS[..] } else { &TAILS[3..4] };
                        round::<T, C>(&s, &h, tails, &mut n)?;
                        d += 1;
                    }
                }
            }
            Ok((n, d))
        },
        |(a, b)| {
            n += a;
            distinct += b
        },
    );
    // buffers, truncations, mutations of a set of encodings that covers every message and state
    let mut items: Vec<Item<T>> = Vec::new();
    for (x, id) in menu.iter().enumerate() {
        for (y, m) in messages(&menu[(x + 1) % menu.len()], [0, 127, 128, 251, 255][x % 5]).into_iter().enumerate() {
            items.push(Item::H(Header {
                src: id.clone(),
                src_incarnation: INCS[(x + y) % INCS.len()],
                dst: menu[(x * 5 + y) % menu.len()].clone(),
                message: m,
            }));
        }
        for (y, st) in STATES.into_iter().enumerate() {
            for inc in [0, 128, 250, 251, 65535] {
                let _ = y;
                items.push(Item::M(Member::new(id.clone(), inc, st)));
            }
        }
    }
    let vals: Vec<usize> = (0..items.len()).collect();
    r.jobs(
        &vals,
        |&x| {
            let i = &items[x];
            let (mut n, mut oks) = (0, 0);
            let e = round::<T, C>(&s, i, &TAILS, &mut n)?;
            // every single byte may follow
            for b in 0..=255u8 {
                round::<T, C>(&s, i, &[&[b]], &mut n)?;
            }
            buffers::<T, C>(&s, i, &e, &mut n)?;
            for k in KINDS {
                // every truncation, also read as the other kind
                for l in 0..=e.len() {
                    if k == i.kind() || !risky::<T, C>(&s, &e) {
                        arbitrary::<T, C>(&s, k, &e[..l], &mut n, &mut oks)?;
                    }
                }
                // every value of every byte
                let stride = if e.len() > 120 && !t { e.len() / 60 } else { 1 };
                for p in 0..e.len() {
                    if p >= 60 && p + 8 < e.len() && p % stride != 0 {
                        continue;
                    }
                    let mut m = e.clone();
                    for v in 0..=255u8 {
                        if brief && v % 8 > 3 && v < 248 {
                            continue;
                        }
                        m[p] = v;
                        if !risky::<T, C>(&s, &m) {
                            arbitrary::<T, C>(&s, k, &m, &mut n, &mut oks)?;
                        }
                    }
                    if p < 120 {
                        let (mut del, mut ins) = (e.clone(), e.clone());
                        del.remove(p);
                        ins.insert(p, 0x80);
                        for m in [del, ins] {
                            if !risky::<T, C>(&s, &m) {
                                arbitrary::<T, C>(&s, k, &m, &mut n, &mut oks)?;
                            }
                        }
                    }
                }
            }
            Ok((n, oks))
        },
        |(a, b)| {
            n += a;
            oks += b
        },
    );
    // all short byte strings
    // (slower with debug assertions)
    let depth = if t { 4 } else if brief { 2 } else { 3 };
    let jobs: Vec<u16> = (0..=255).collect();
    r.jobs(
        &jobs,
        |&a| {
            let (mut n, mut oks) = (0, 0);
            let a = a as u8;
            let mut go = |b: &[u8]| -> Result<(), Fail> {
                if risky::<T, C>(&s, b) {
                    return Ok(());
                }
                for k in KINDS {
                    arbitrary::<T, C>(&s, k, b, &mut n, &mut oks)?;
                }
                Ok(())
            };
            if a == 0 {
                go(&[])?;
            }
            go(&[a])?;
            // under unlimited bincode with owned buffers: smaller, allocations are slow
            let depth = if s.nolimit && T::HEAP { depth.min(3) } else { depth };
            let mut m = [a, 0, 0, 0];
            for b in 0..=255 {
                m[1] = b;
                go(&m[..2])?;
                for c in 0..=255 {
                    m[2] = c;
                    if depth > 2 {
                        go(&m[..3])?;
                    }
                    if depth > 3 {
                        for d in 0..=255 {
                            m[3] = d;
                            go(&m)?;
                        }
                    }
                }
            }
            // and long runs of one or two bytes
            for b in [0u8, 1, 0x7f, 0x80, 0xfa, 0xfb, 0xff, a] {
                for l in [5, 8, 9, 13, 21, 40, 90, 200] {
                    let mut m = vec![b; l];
                    m[0] = a;
                    go(&m)?;
                    m[1] = a;
                    go(&m)?;
                    m[l / 2] = a;
                    go(&m)?;
                }
            }
            Ok((n, oks))
        },
        |(a, b)| {
            n += a;
            oks += b
        },
    );
    r.states += distinct;
    r.transitions += n;
    r.validated += n;
    r.count("values_round_tripped", distinct);
    r.count("arbitrary_inputs_that_decoded", oks);
    if r.samples.len() < 6 {
        r.sample(format!("{}: {}", ctx::<T, C>(&s), clip(format!("{:?}", items[items.len() / 2]))));
    }
    r.scope_line(format!("values {} {}: {distinct} values, {n} codec calls, {oks} arbitrary inputs decoded, strings up to {depth} bytes", T::NAME, s.name));
}

/// bincode without a limit reserves what a length prefix asks for before reading: one specific
/// input, listed as a known finding.
pub fn known_overflow(r: &mut Report) {
    let s = Sel { name: "bincode-standard", codec: foca::BincodeCodec(bincode::config::standard()), nolimit: true, fixed: false };
    let mut b = vec![253u8];
    b.extend_from_slice(&[0xff; 8]);
    let (mut n, mut o) = (0, 0);
    for k in KINDS {
        if let Err((v, t)) = arbitrary::<Name, _>(&s, k, &b, &mut n, &mut o) {
            let sig = if v.sig == "capacity-overflow" { format!("bincode-nolimit-capacity-overflow-{k:?}") } else { v.sig };
            r.violation(Viol { sig, msg: v.msg }, t);
        }
    }
    r.transitions += n;
    r.scope_line(format!("unlimited bincode, length prefix 2^64-1: {n} calls"));
}
