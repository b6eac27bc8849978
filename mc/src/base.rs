//! Identity, codec, broadcast handler, RNG and runtime owned by the harness, plus the
//! wrapper that drives, forks and dumps one real Foca instance.
use bytes::{Buf, BufMut};
use foca::{
    BroadcastHandler, Codec, Config, Foca, Header, Identity, Invalidates, Member, Message,
    Notification, OwnedNotification, Runtime, State, Timer,
};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::num::{NonZeroU8, NonZeroUsize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::time::Duration;

// ------------------------------------------------------------------ identity

pub const K_NONE: u8 = 0; // renew() -> None
pub const K_RENEW: u8 = 1; // renew() -> gen + 1, wins
pub const K_SAME: u8 = 2; // renew() -> itself
pub const K_LOSE: u8 = 3; // renew() -> different identity that loses the conflict
// inconsistent identities, only used to look for panics
pub const K_MOVE: u8 = 4; // renew() -> identity of another address
pub const K_WIN: u8 = 5; // always wins the conflict; renew() -> gen + 1
pub const K_NEVER: u8 = 6; // never wins the conflict; renew() -> gen + 1
pub const K_PLAIN: u8 = 7; // the address is the identity (gen 0): asking who wins panics, as for std's SocketAddr

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Id {
    pub addr: u8,
    pub gen: u8,
    pub kind: u8,
}
pub const fn id(addr: u8, gen: u8) -> Id {
    Id {
        addr,
        gen,
        kind: K_NONE,
    }
}
pub const fn idk(addr: u8, gen: u8, kind: u8) -> Id {
    Id { addr, gen, kind }
}
impl fmt::Debug for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let k = ["", "r", "s", "l", "m", "w", "n", "p"].get(self.kind as usize).unwrap_or(&"?");
        write!(f, "{}.{}{}", self.addr, self.gen, k)
    }
}
impl Identity for Id {
    type Addr = u8;
    fn renew(&self) -> Option<Self> {
        match self.kind {
            K_RENEW | K_WIN | K_NEVER => self.gen.checked_add(1).map(|gen| Id { gen, ..*self }),
            K_MOVE => Some(Id {
                addr: (self.addr + 1) % 4,
                gen: self.gen.wrapping_add(1),
                ..*self
            }),
            K_SAME => Some(*self),
            K_LOSE => self.gen.checked_sub(1).map(|gen| Id { gen, ..*self }),
            _ => None,
        }
    }
    fn addr(&self) -> u8 {
        self.addr
    }
    fn win_addr_conflict(&self, adversary: &Self) -> bool {
        match self.kind {
            K_MOVE | K_WIN => true,
            K_NEVER => false,
            K_PLAIN if adversary.kind == K_PLAIN => {
                panic!("asked who of {self:?} and {adversary:?} wins")
            }
            _ => wins(self, adversary),
        }
    }
}
/// The conflict order of the harness identities: greater (gen, kind) wins; total, so of two
/// different identities sharing an address exactly one wins.
pub fn wins(a: &Id, b: &Id) -> bool {
    (a.gen, a.kind) > (b.gen, b.kind)
}

// ------------------------------------------------------------------ codec

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
    /// identities take 3 bytes
    Fixed,
    /// identities take 4..=9 bytes depending on their value
    Var,
    /// identities take 3 + n bytes
    Pad(u8),
    /// whole header in one byte (lossy: addresses < 4, no incarnation, no probe number)
    Tiny,
    /// like Fixed, but whatever involves address 9 fails to encode (after writing some of it)
    Moody,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct McCodec {
    pub enc: Enc,
    /// on insufficient space, write whatever fits before returning the error
    pub dirty: bool,
}
pub const FIXED: McCodec = McCodec {
    enc: Enc::Fixed,
    dirty: false,
};
pub const VAR: McCodec = McCodec {
    enc: Enc::Var,
    dirty: true,
};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum CodecErr {
    Full,
    Short,
    Bad,
}
impl fmt::Display for CodecErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for CodecErr {}

fn var_pad(i: &Id) -> usize {
    (i.addr as usize * 7 + i.gen as usize * 3) % 6
}
impl McCodec {
    fn put_id(&self, i: &Id, v: &mut Vec<u8>) {
        v.extend_from_slice(&[i.addr, i.gen, i.kind]);
        match self.enc {
            Enc::Fixed | Enc::Tiny | Enc::Moody => {}
            Enc::Var => {
                let n = var_pad(i);
                v.push(n as u8);
                v.extend(std::iter::repeat(0xAA).take(n));
            }
            Enc::Pad(n) => v.extend(std::iter::repeat(0xBB).take(n as usize)),
        }
    }
    fn get_id(&self, b: &mut impl Buf) -> Result<Id, CodecErr> {
        if b.remaining() < 3 {
            return Err(CodecErr::Short);
        }
        let i = Id {
            addr: b.get_u8(),
            gen: b.get_u8(),
            kind: b.get_u8(),
        };
        if i.kind > K_PLAIN || (i.kind == K_PLAIN && i.gen != 0) {
            return Err(CodecErr::Bad);
        }
        let (n, c) = match self.enc {
            Enc::Fixed | Enc::Tiny | Enc::Moody => (0, 0),
            Enc::Var => {
                if b.remaining() < 1 {
                    return Err(CodecErr::Short);
                }
                let n = b.get_u8() as usize;
                if n != var_pad(&i) {
                    return Err(CodecErr::Bad);
                }
                (n, 0xAA)
            }
            Enc::Pad(n) => (n as usize, 0xBB),
        };
        if b.remaining() < n {
            return Err(CodecErr::Short);
        }
        for _ in 0..n {
            if b.get_u8() != c {
                return Err(CodecErr::Bad);
            }
        }
        Ok(i)
    }
    pub fn enc_member(&self, m: &Member<Id>) -> Vec<u8> {
        let mut v = Vec::new();
        self.put_id(m.id(), &mut v);
        v.extend_from_slice(&m.incarnation().to_be_bytes());
        v.push(match m.state() {
            State::Alive => 1,
            State::Suspect => 2,
            State::Down => 3,
        });
        v
    }
    pub fn dec_member(&self, b: &mut impl Buf) -> Result<Member<Id>, CodecErr> {
        let i = self.get_id(b)?;
        if b.remaining() < 3 {
            return Err(CodecErr::Short);
        }
        let inc = b.get_u16();
        let st = match b.get_u8() {
            1 => State::Alive,
            2 => State::Suspect,
            3 => State::Down,
            _ => return Err(CodecErr::Bad),
        };
        Ok(Member::new(i, inc, st))
    }
    pub fn enc_header(&self, h: &Header<Id>) -> Vec<u8> {
        let mut v = Vec::new();
        let (tag, who, num): (u8, Option<Id>, Option<u8>) = match &h.message {
            Message::Ping(n) => (1, None, Some(*n)),
            Message::Ack(n) => (2, None, Some(*n)),
            Message::PingReq {
                target,
                probe_number,
            } => (3, Some(*target), Some(*probe_number)),
            Message::IndirectPing {
                origin,
                probe_number,
            } => (4, Some(*origin), Some(*probe_number)),
            Message::IndirectAck {
                target,
                probe_number,
            } => (5, Some(*target), Some(*probe_number)),
            Message::ForwardedAck {
                origin,
                probe_number,
            } => (6, Some(*origin), Some(*probe_number)),
            Message::Announce => (7, None, None),
            Message::Feed => (8, None, None),
            Message::Gossip => (9, None, None),
            Message::Broadcast => (10, None, None),
            Message::TurnUndead => (11, None, None),
        };
        if self.enc == Enc::Tiny {
            v.push((tag << 4) | ((h.src.addr & 3) << 2) | (h.dst.addr & 3));
            return v;
        }
        self.put_id(&h.src, &mut v);
        v.extend_from_slice(&h.src_incarnation.to_be_bytes());
        self.put_id(&h.dst, &mut v);
        v.push(tag);
        if let Some(w) = who {
            self.put_id(&w, &mut v);
        }
        if let Some(n) = num {
            v.push(n);
        }
        v
    }
    pub fn dec_header(&self, b: &mut impl Buf) -> Result<Header<Id>, CodecErr> {
        if self.enc == Enc::Tiny {
            if b.remaining() < 1 {
                return Err(CodecErr::Short);
            }
            let x = b.get_u8();
            let t = id(3, 0);
            return Ok(Header {
                src: id((x >> 2) & 3, 0),
                src_incarnation: 0,
                dst: id(x & 3, 0),
                message: match x >> 4 {
                    1 => Message::Ping(0),
                    2 => Message::Ack(0),
                    3 => Message::PingReq {
                        target: t,
                        probe_number: 0,
                    },
                    4 => Message::IndirectPing {
                        origin: t,
                        probe_number: 0,
                    },
                    5 => Message::IndirectAck {
                        target: t,
                        probe_number: 0,
                    },
                    6 => Message::ForwardedAck {
                        origin: t,
                        probe_number: 0,
                    },
                    7 => Message::Announce,
                    8 => Message::Feed,
                    9 => Message::Gossip,
                    10 => Message::Broadcast,
                    11 => Message::TurnUndead,
                    _ => return Err(CodecErr::Bad),
                },
            });
        }
        let src = self.get_id(b)?;
        if b.remaining() < 2 {
            return Err(CodecErr::Short);
        }
        let src_incarnation = b.get_u16();
        let dst = self.get_id(b)?;
        if b.remaining() < 1 {
            return Err(CodecErr::Short);
        }
        let tag = b.get_u8();
        let who = if (3..=6).contains(&tag) {
            Some(self.get_id(b)?)
        } else {
            None
        };
        let num = if (1..=6).contains(&tag) {
            if b.remaining() < 1 {
                return Err(CodecErr::Short);
            }
            b.get_u8()
        } else {
            0
        };
        let message = match (tag, who) {
            (1, _) => Message::Ping(num),
            (2, _) => Message::Ack(num),
            (3, Some(target)) => Message::PingReq {
                target,
                probe_number: num,
            },
            (4, Some(origin)) => Message::IndirectPing {
                origin,
                probe_number: num,
            },
            (5, Some(target)) => Message::IndirectAck {
                target,
                probe_number: num,
            },
            (6, Some(origin)) => Message::ForwardedAck {
                origin,
                probe_number: num,
            },
            (7, _) => Message::Announce,
            (8, _) => Message::Feed,
            (9, _) => Message::Gossip,
            (10, _) => Message::Broadcast,
            (11, _) => Message::TurnUndead,
            _ => return Err(CodecErr::Bad),
        };
        Ok(Header {
            src,
            src_incarnation,
            dst,
            message,
        })
    }
    fn put(&self, v: &[u8], mut buf: impl BufMut) -> Result<(), CodecErr> {
        let room = buf.remaining_mut();
        if room < v.len() {
            if self.dirty {
                buf.put_slice(&v[..room]);
            }
            return Err(CodecErr::Full);
        }
        buf.put_slice(v);
        Ok(())
    }
}
impl Codec<Id> for McCodec {
    type Error = CodecErr;
    fn encode_header(&mut self, h: &Header<Id>, mut buf: impl BufMut) -> Result<(), CodecErr> {
        let v = self.enc_header(h);
        if self.enc == Enc::Moody && (h.src.addr == 9 || h.dst.addr == 9) {
            buf.put_slice(&v[..2.min(buf.remaining_mut())]);
            return Err(CodecErr::Bad);
        }
        self.put(&v, buf)
    }
    fn decode_header(&mut self, mut buf: impl Buf) -> Result<Header<Id>, CodecErr> {
        self.dec_header(&mut buf)
    }
    fn encode_member(&mut self, m: &Member<Id>, mut buf: impl BufMut) -> Result<(), CodecErr> {
        let v = self.enc_member(m);
        if self.enc == Enc::Moody && m.id().addr == 9 {
            buf.put_slice(&v[..2.min(buf.remaining_mut())]);
            return Err(CodecErr::Bad);
        }
        self.put(&v, buf)
    }
    fn decode_member(&mut self, mut buf: impl Buf) -> Result<Member<Id>, CodecErr> {
        self.dec_member(&mut buf)
    }
}

// ------------------------------------------------------------------ broadcast handler

/// Items are `[key, version, payload..]` (a missing version is 0). `key == 0xEE` makes the
/// handler fail. An item is accepted when its version is newer than the newest one seen for
/// its key, or always in `always` mode.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct McHandler {
    pub inval: Inval,
    pub always: bool,
    /// bitmask of addresses for which should_add_broadcast_data is false
    pub deny: u32,
    pub seen: BTreeMap<u8, u8>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Inval {
    /// same key replaces
    Key,
    /// nothing is ever replaced
    Never,
    /// key 0 replaces everything, others replace their own key
    Zero,
    /// an item replaces only older versions of the same key
    Older,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Key {
    pub inval: Inval,
    pub key: u8,
    pub ver: u8,
}
impl Invalidates for Key {
    fn invalidates(&self, o: &Self) -> bool {
        key_inval(self, o)
    }
}
pub fn key_inval(a: &Key, o: &Key) -> bool {
    match a.inval {
        Inval::Key => a.key == o.key,
        Inval::Never => false,
        Inval::Zero => a.key == 0 || a.key == o.key,
        Inval::Older => a.key == o.key && a.ver > o.ver,
    }
}
#[derive(Debug, Clone)]
pub struct HErr;
impl fmt::Display for HErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("handler error")
    }
}
impl std::error::Error for HErr {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum HRes {
    Accepted(Key),
    Stale,
    Err,
}
pub type HLog = Vec<(Vec<u8>, Option<Id>, HRes)>;
thread_local! {
    static HLOG: RefCell<HLog> = const { RefCell::new(Vec::new()) };
    /// how many datagrams had been sent before each handler call
    static HPOS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static SENT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
impl McHandler {
    pub fn new(inval: Inval) -> Self {
        McHandler {
            inval,
            always: false,
            deny: 0,
            seen: BTreeMap::new(),
        }
    }
    pub fn judge(&self, data: &[u8]) -> HRes {
        let key = data[0];
        let ver = data.get(1).copied().unwrap_or(0);
        if key == 0xEE {
            return HRes::Err;
        }
        if !self.always && self.seen.get(&key).is_some_and(|s| *s >= ver) {
            return HRes::Stale;
        }
        HRes::Accepted(Key {
            inval: self.inval,
            key,
            ver,
        })
    }
}
impl BroadcastHandler<Id> for McHandler {
    type Key = Key;
    type Error = HErr;
    fn receive_item(&mut self, data: &[u8], sender: Option<&Id>) -> Result<Option<Key>, HErr> {
        let r = if data.is_empty() {
            HRes::Err
        } else {
            self.judge(data)
        };
        HPOS.with(|l| l.borrow_mut().push(SENT.get()));
        HLOG.with(|l| {
            l.borrow_mut()
                .push((data.to_vec(), sender.copied(), r.clone()))
        });
        match r {
            HRes::Accepted(k) => {
                if !self.always {
                    self.seen.insert(k.key, k.ver);
                }
                Ok(Some(k))
            }
            HRes::Stale => Ok(None),
            HRes::Err => Err(HErr),
        }
    }
    fn should_add_broadcast_data(&self, m: &Id) -> bool {
        (self.deny >> (m.addr & 31)) & 1 == 0
    }
}

// ------------------------------------------------------------------ RNG

/// What the instance's RNG answers. `Script`: choice indices into a menu of `m` values, 0 once
/// exhausted, the number of draws is recorded.
pub struct RngCtl {
    pub m: u32,
    pub script: Vec<u8>,
    pub used: usize,
    /// when set, overrides the script: called with the node tag
    pub hook: Option<Box<dyn FnMut(u8) -> u32>>,
}
thread_local! {
    pub static RNG: RefCell<RngCtl> = const { RefCell::new(RngCtl { m: 1, script: Vec::new(), used: 0, hook: None }) };
}
thread_local! {
    /// (offset, step): added to the n-th answer's index, so that an all-zero script stands for
    /// another stream than the constant zero
    pub static TURN: std::cell::Cell<(u32, u32)> = const { std::cell::Cell::new((0, 0)) };
}
fn turned(m: u32, n: usize, c: u8) -> u32 {
    let (o, s) = TURN.get();
    (c as u32 + o + s * n as u32) % m.max(1)
}
/// i-th of m menu values. With m a multiple of n, every outcome of `random_range(0..n)` is hit;
/// with m = k!, every permutation of `shuffle` on up to k elements (see `selftest`).
pub fn menu(m: u32, i: u32) -> u32 {
    let q = ((i as u64) << 32).div_ceil(m as u64) as u32;
    q.wrapping_add(9 * i)
}
#[derive(Clone, Debug)]
pub struct McRng(pub u8);
impl rand::RngCore for McRng {
    fn next_u32(&mut self) -> u32 {
        RNG.with(|r| {
            let mut r = r.borrow_mut();
            if let Some(h) = r.hook.as_mut() {
                return h(self.0);
            }
            let c = r.script.get(r.used).copied().unwrap_or(0);
            let c = turned(r.m, r.used, c);
            r.used += 1;
            menu(r.m, c)
        })
    }
    fn next_u64(&mut self) -> u64 {
        let hi = self.next_u32() as u64;
        (hi << 32) | hi
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for c in dst.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
}

// ------------------------------------------------------------------ runtime

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Eff {
    Send { dst: Id, data: Vec<u8> },
    Timer { t: Timer<Id>, after: Duration },
    Notify(OwnedNotification<Id>),
}
#[derive(Default)]
pub struct Rec(pub Vec<Eff>);
impl Runtime<Id> for Rec {
    fn notify(&mut self, n: Notification<'_, Id>) {
        self.0.push(Eff::Notify(n.to_owned()));
    }
    fn send_to(&mut self, dst: Id, data: &[u8]) {
        SENT.set(SENT.get() + 1);
        self.0.push(Eff::Send {
            dst,
            data: data.to_vec(),
        });
    }
    fn submit_after(&mut self, t: Timer<Id>, after: Duration) {
        self.0.push(Eff::Timer { t, after });
    }
}

// ------------------------------------------------------------------ datagrams

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pkt {
    pub h: Header<Id>,
    /// None: no member section at all
    pub ups: Option<Vec<Member<Id>>>,
    pub items: Vec<Vec<u8>>,
    pub hdr_len: usize,
    /// offset where the custom broadcast tail starts
    pub tail_at: usize,
}
pub fn piggybacks(m: &Message<Id>) -> bool {
    !matches!(
        m,
        Message::Announce | Message::TurnUndead | Message::Broadcast
    )
}
pub fn may_carry_items(m: &Message<Id>) -> bool {
    !matches!(m, Message::Announce | Message::TurnUndead)
}
/// Independent parser of the datagram grammar of the documentation (C07).
pub fn parse(c: &McCodec, data: &[u8]) -> Result<Pkt, String> {
    let mut b = data;
    let h = c
        .dec_header(&mut b)
        .map_err(|e| format!("header does not decode: {e}"))?;
    let hdr_len = data.len() - b.len();
    let mut ups = None;
    let mut items = Vec::new();
    if piggybacks(&h.message) && !b.is_empty() {
        if b.len() < 2 {
            return Err("one stray byte after the header".into());
        }
        let n = b.get_u16();
        let mut v = Vec::new();
        for i in 0..n {
            v.push(
                c.dec_member(&mut b)
                    .map_err(|e| format!("member {i} of {n} does not decode: {e}"))?,
            );
        }
        ups = Some(v);
    }
    let tail_at = data.len() - b.len();
    if !b.is_empty() && !may_carry_items(&h.message) {
        return Err(format!(
            "{:?} carries {} bytes after the header",
            h.message,
            b.len()
        ));
    }
    while !b.is_empty() {
        if b.len() < 2 {
            return Err("one stray byte in the custom broadcast section".into());
        }
        let n = b.get_u16() as usize;
        if n == 0 {
            return Err("empty custom broadcast item".into());
        }
        if b.len() < n {
            return Err(format!(
                "custom broadcast item of {n} bytes but only {} left",
                b.len()
            ));
        }
        items.push(b[..n].to_vec());
        b.advance(n);
    }
    Ok(Pkt {
        h,
        ups,
        items,
        hdr_len,
        tail_at,
    })
}
pub fn build(
    c: &McCodec,
    src: Id,
    inc: u16,
    dst: Id,
    message: Message<Id>,
    ups: &[Member<Id>],
    items: &[Vec<u8>],
) -> Vec<u8> {
    let pig = piggybacks(&message);
    let mut v = c.enc_header(&Header {
        src,
        src_incarnation: inc,
        dst,
        message,
    });
    if pig && (!ups.is_empty() || !items.is_empty()) {
        v.extend_from_slice(&(ups.len() as u16).to_be_bytes());
        for u in ups {
            v.extend(c.enc_member(u));
        }
    }
    for i in items {
        v.extend_from_slice(&(i.len() as u16).to_be_bytes());
        v.extend_from_slice(i);
    }
    v
}

// ------------------------------------------------------------------ calls

#[derive(Clone, Debug)]
pub enum Call {
    Data(Vec<u8>),
    Timer(Timer<Id>),
    Announce(Id),
    Gossip,
    Broadcast,
    Leave,
    AddB(Vec<u8>),
    Apply(Vec<Member<Id>>, bool),
    ChangeId(Id),
    Reuse,
    SetCfg(Box<Config>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    OkBool(bool),
    Err(ErrK),
    Panic(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrK {
    DataTooBig,
    NotUndead,
    SameIdentity,
    NotConnected,
    IncompleteProbeCycle,
    DataFromOurselves,
    IndirectForOurselves,
    MalformedPacket,
    Encode(String),
    Decode(String),
    CustomBroadcast(String),
    InvalidConfig,
}
impl From<foca::Error> for ErrK {
    fn from(e: foca::Error) -> Self {
        use foca::Error as E;
        match e {
            E::DataTooBig => ErrK::DataTooBig,
            E::NotUndead => ErrK::NotUndead,
            E::SameIdentity => ErrK::SameIdentity,
            E::NotConnected => ErrK::NotConnected,
            E::IncompleteProbeCycle => ErrK::IncompleteProbeCycle,
            E::DataFromOurselves => ErrK::DataFromOurselves,
            E::IndirectForOurselves => ErrK::IndirectForOurselves,
            E::MalformedPacket => ErrK::MalformedPacket,
            E::Encode(x) => ErrK::Encode(x.to_string()),
            E::Decode(x) => ErrK::Decode(x.to_string()),
            E::CustomBroadcast(x) => ErrK::CustomBroadcast(x.to_string()),
            E::InvalidConfig => ErrK::InvalidConfig,
        }
    }
}
pub struct Out {
    pub eff: Vec<Eff>,
    pub res: Res,
    pub hlog: HLog,
    pub hpos: Vec<usize>,
    pub draws: usize,
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self.res, Res::Ok | Res::OkBool(_))
    }
    pub fn sends(&self) -> impl Iterator<Item = (&Id, &Vec<u8>)> {
        self.eff.iter().filter_map(|e| match e {
            Eff::Send { dst, data } => Some((dst, data)),
            _ => None,
        })
    }
    pub fn timers(&self) -> impl Iterator<Item = (&Timer<Id>, Duration)> {
        self.eff.iter().filter_map(|e| match e {
            Eff::Timer { t, after } => Some((t, *after)),
            _ => None,
        })
    }
    pub fn notes(&self) -> impl Iterator<Item = &OwnedNotification<Id>> {
        self.eff.iter().filter_map(|e| match e {
            Eff::Notify(n) => Some(n),
            _ => None,
        })
    }
}

/// What can be seen of an instance through its public getters.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub me: Id,
    /// iter_membership_state
    pub all: Vec<Member<Id>>,
    /// iter_members
    pub act: Vec<Member<Id>>,
    pub num: usize,
    pub upd: usize,
    pub cus: usize,
}
impl Obs {
    pub fn rec(&self, addr: u8) -> Option<&Member<Id>> {
        self.all.iter().find(|m| m.id().addr == addr)
    }
    pub fn is_active(&self, i: &Id) -> bool {
        self.act.iter().any(|m| m.id() == i)
    }
}
pub fn active(s: State) -> bool {
    s != State::Down
}

// ------------------------------------------------------------------ the instance under test

pub type F = Foca<Id, McCodec, McRng, McHandler>;

#[derive(Clone, Debug)]
pub struct Init {
    pub me: Id,
    pub cfg: Config,
    pub codec: McCodec,
    pub handler: McHandler,
    pub tag: u8,
}
impl Init {
    pub fn new(me: Id, cfg: Config) -> Self {
        Init {
            me,
            cfg,
            codec: FIXED,
            handler: McHandler::new(Inval::Key),
            tag: 0,
        }
    }
    fn make(&self) -> F {
        Foca::with_custom_broadcast(
            self.me,
            self.cfg.clone(),
            McRng(self.tag),
            self.codec,
            self.handler.clone(),
        )
    }
}

#[cfg(not(foca_verif))]
struct LogNode {
    prev: Option<std::sync::Arc<LogNode>>,
    call: Call,
    draws: Vec<u32>,
}

/// One real instance that can be forked. With the hook, forking is `Clone`; without it the
/// instance is rebuilt by replaying its call log (same calls, same RNG answers).
pub struct Sut {
    pub f: F,
    #[cfg(not(foca_verif))]
    init: Init,
    #[cfg(not(foca_verif))]
    log: Option<std::sync::Arc<LogNode>>,
    #[cfg(not(foca_verif))]
    hist: u128,
}
impl Sut {
    pub fn new(init: &Init) -> Sut {
        Sut {
            f: init.make(),
            #[cfg(not(foca_verif))]
            init: init.clone(),
            #[cfg(not(foca_verif))]
            log: None,
            #[cfg(not(foca_verif))]
            hist: {
                let mut h = H128::default();
                h.dbg(init);
                h.finish()
            },
        }
    }
    pub fn new_checked(init: &Init) -> Result<Sut, String> {
        catch_unwind(AssertUnwindSafe(|| Sut::new(init)))
            .map_err(|_| PANIC.with(|p| p.borrow().clone()))
    }
    /// Perform one call. RNG answers come from the current thread's RngCtl.
    pub fn exec(&mut self, call: &Call) -> Out {
        HLOG.with(|l| l.borrow_mut().clear());
        HPOS.with(|l| l.borrow_mut().clear());
        SENT.set(0);
        RNG.with(|r| r.borrow_mut().used = 0);
        #[cfg(not(foca_verif))]
        let rec: std::rc::Rc<RefCell<Vec<u32>>> = Default::default();
        #[cfg(not(foca_verif))]
        let saved = {
            // record the answers given so that the log can be replayed
            let mut saved: Option<Box<dyn FnMut(u8) -> u32>> =
                RNG.with(|r| r.borrow_mut().hook.take());
            let (m, script) = RNG.with(|r| (r.borrow().m, r.borrow().script.clone()));
            let rec2 = rec.clone();
            let cell = std::rc::Rc::new(RefCell::new(saved.take()));
            let cell2 = cell.clone();
            let mut pos = 0usize;
            RNG.with(|r| {
                r.borrow_mut().hook = Some(Box::new(move |tag| {
                    let v = if let Some(h) = cell2.borrow_mut().as_mut() {
                        h(tag)
                    } else {
                        let c = script.get(pos).copied().unwrap_or(0);
                        let c = turned(m, pos, c);
                        pos += 1;
                        menu(m, c)
                    };
                    rec2.borrow_mut().push(v);
                    v
                }))
            });
            cell
        };
        let mut rt = Rec::default();
        let f = &mut self.f;
        let r = {
            let _w = Watched::start(call);
            catch_unwind(AssertUnwindSafe(|| run(f, call, &mut rt)))
        };
        let res = match r {
            Ok(Ok(None)) => Res::Ok,
            Ok(Ok(Some(b))) => Res::OkBool(b),
            Ok(Err(e)) => Res::Err(e.into()),
            Err(_) => Res::Panic(PANIC.with(|p| p.borrow().clone())),
        };
        let hlog = HLOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let hpos = HPOS.with(|l| std::mem::take(&mut *l.borrow_mut()));
        #[cfg(not(foca_verif))]
        {
            RNG.with(|r| {
                r.borrow_mut().hook = saved.borrow_mut().take();
                r.borrow_mut().used = rec.borrow().len();
            });
            let draws = rec.borrow().clone();
            let mut h = H128::default();
            h.dbg(&(self.hist, call, &draws));
            self.hist = h.finish();
            self.log = Some(std::sync::Arc::new(LogNode {
                prev: self.log.take(),
                call: call.clone(),
                draws,
            }));
        }
        let draws = RNG.with(|r| r.borrow().used);
        Out {
            eff: rt.0,
            res,
            hlog,
            hpos,
            draws,
        }
    }
    pub fn obs(&self) -> Obs {
        Obs {
            me: *self.f.identity(),
            all: self.f.iter_membership_state().cloned().collect(),
            act: self.f.iter_members().cloned().collect(),
            num: self.f.num_members(),
            upd: self.f.updates_backlog(),
            cus: self.f.custom_broadcast_backlog(),
        }
    }
    /// Complete internal state as text (hook), or the history hash (fallback).
    pub fn dump(&self) -> String {
        #[cfg(foca_verif)]
        {
            let mut s = format!("{:?}", self.f);
            // output scratch buffer: cleared before every use, holds the last datagram
            let name = "send_buf: [";
            if let Some(p) = s.find(name) {
                let b = p + name.len();
                if let Some(e) = s[b..].find(']') {
                    s.replace_range(b..b + e, "");
                }
            }
            s
        }
        #[cfg(not(foca_verif))]
        {
            format!("{:?}", self.hist)
        }
    }
    pub fn dump_full(&self) -> String {
        self.dump()
    }
    /// Own incarnation, observed through the header of an Announce sent by a fork.
    /// Given its settings, datagrams that are too small for anything are no obstacle.
    pub fn peek_inc(&self, codec: &McCodec, cfg: Option<&Config>) -> u16 {
        for roomy in [None, cfg] {
            let mut c = self.clone();
            let out = quiet_rng(|| {
                if let Some(x) = roomy {
                    let mut x = x.clone();
                    x.max_packet_size = nz(x.max_packet_size.get().max(1400));
                    let _ = c.exec(&Call::SetCfg(Box::new(x)));
                }
                c.exec(&Call::Announce(id(250, 0)))
            });
            for (_, d) in out.sends() {
                if let Ok(p) = parse(codec, d) {
                    return p.h.src_incarnation;
                }
            }
        }
        0
    }
    /// Is the instance defunct (observed with a fork: only a defunct one accepts reuse).
    pub fn peek_undead(&self) -> bool {
        let mut c = self.clone();
        quiet_rng(|| c.exec(&Call::Reuse)).ok()
    }
}
impl Clone for Sut {
    fn clone(&self) -> Self {
        #[cfg(foca_verif)]
        {
            Sut { f: self.f.clone() }
        }
        #[cfg(not(foca_verif))]
        {
            let mut v = Vec::new();
            let mut cur = self.log.as_ref();
            while let Some(n) = cur {
                v.push(n.clone());
                cur = n.prev.as_ref();
            }
            let mut f = self.init.make();
            let saved = RNG.with(|r| r.borrow_mut().hook.take());
            let savedl = HLOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
            for n in v.iter().rev() {
                let d = n.draws.clone();
                let mut pos = 0;
                RNG.with(|r| {
                    r.borrow_mut().hook = Some(Box::new(move |_| {
                        pos += 1;
                        d.get(pos - 1).copied().unwrap_or(0)
                    }))
                });
                let mut rt = Rec::default();
                let _ = catch_unwind(AssertUnwindSafe(|| run(&mut f, &n.call, &mut rt)));
            }
            RNG.with(|r| r.borrow_mut().hook = saved);
            HLOG.with(|l| *l.borrow_mut() = savedl);
            Sut {
                f,
                init: self.init.clone(),
                log: self.log.clone(),
                hist: self.hist,
            }
        }
    }
}
pub fn run(f: &mut F, call: &Call, rt: impl Runtime<Id>) -> Result<Option<bool>, foca::Error> {
    match call {
        Call::Data(d) => f.handle_data(d, rt).map(|_| None),
        Call::Timer(t) => f.handle_timer(t.clone(), rt).map(|_| None),
        Call::Announce(i) => f.announce(*i, rt).map(|_| None),
        Call::Gossip => f.gossip(rt).map(|_| None),
        Call::Broadcast => f.broadcast(rt).map(|_| None),
        Call::Leave => f.leave_cluster(rt).map(|_| None),
        Call::AddB(d) => f.add_broadcast(d).map(Some),
        Call::Apply(v, b) => f.apply_many(v.iter().cloned(), *b, rt).map(|_| None),
        Call::ChangeId(i) => f.change_identity(*i, rt).map(|_| None),
        Call::Reuse => f.reuse_down_identity().map(|_| None),
        Call::SetCfg(c) => f.set_config((**c).clone()).map(|_| None),
    }
}
pub fn with_rng<T>(m: u32, script: &[u8], f: impl FnOnce() -> T) -> T {
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        r.m = m;
        r.script.clear();
        r.script.extend_from_slice(script);
        r.used = 0;
    });
    f()
}
/// Run `f` with all-default RNG answers, then restore the current script.
pub fn quiet_rng<T>(f: impl FnOnce() -> T) -> T {
    let save = RNG.with(|r| {
        let mut r = r.borrow_mut();
        (r.m, std::mem::take(&mut r.script), r.used, r.hook.take())
    });
    let out = with_rng(1, &[], f);
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        (r.m, r.script, r.used, r.hook) = save;
    });
    out
}
/// Run `f` once per RNG script over the menu of size `m` (odometer over the draws actually made),
/// at most `cap` scripts; returns (scripts run, complete).
pub fn all_scripts(m: u32, cap: usize, mut f: impl FnMut(&[u8]) -> usize) -> (usize, bool) {
    let mut script: Vec<u8> = Vec::new();
    let mut n = 0;
    loop {
        let used = f(&script);
        n += 1;
        script.truncate(used);
        while script.len() < used {
            script.push(0);
        }
        loop {
            match script.last_mut() {
                None => return (n, true),
                Some(x) if (*x as u32) + 1 < m => {
                    *x += 1;
                    break;
                }
                Some(_) => {
                    script.pop();
                }
            }
        }
        if n >= cap {
            return (n, false);
        }
    }
}
// ------------------------------------------------------------------ calls that never return

struct Slot {
    seq: AtomicU64,
    call: AtomicPtr<Call>,
}
const NSLOTS: usize = 512;
static SLOTS: [Slot; NSLOTS] = [const {
    Slot {
        seq: AtomicU64::new(0),
        call: AtomicPtr::new(std::ptr::null_mut()),
    }
}; NSLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % NSLOTS;
}
/// Marks the current thread as being inside a call (odd sequence number) until dropped.
pub struct Watched(usize);
impl Watched {
    pub fn start(call: &Call) -> Watched {
        let i = SLOT.with(|s| *s);
        SLOTS[i]
            .call
            .store(call as *const Call as *mut Call, Ordering::Relaxed);
        SLOTS[i].seq.fetch_add(1, Ordering::Release);
        Watched(i)
    }
}
impl Drop for Watched {
    fn drop(&mut self) {
        SLOTS[self.0].seq.fetch_add(1, Ordering::Release);
    }
}
/// Reports a call that has not returned for `secs` seconds, through `report`.
pub fn watchdog(secs: u32, report: impl Fn(String) + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = vec![(0u64, 0u32); NSLOTS];
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for (i, l) in last.iter_mut().enumerate() {
                let q = SLOTS[i].seq.load(Ordering::Acquire);
                if q % 2 == 1 && q == l.0 {
                    l.1 += 1;
                    if l.1 >= secs {
                        let p = SLOTS[i].call.load(Ordering::Relaxed);
                        // the owning thread is stuck inside the call that borrows it
                        let c = unsafe { (*p).clone() };
                        report(format!("{c:?}"));
                        return;
                    }
                } else {
                    *l = (q, 0);
                }
            }
        }
    });
}
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

// ------------------------------------------------------------------ hashing

use std::hash::Hasher;
#[derive(Clone)]
pub struct H128(
    std::collections::hash_map::DefaultHasher,
    std::collections::hash_map::DefaultHasher,
);
impl Default for H128 {
    fn default() -> Self {
        #[allow(deprecated)]
        let mut b = std::collections::hash_map::DefaultHasher::new();
        b.write_u64(0x9E37_79B9_7F4A_7C15);
        H128(std::collections::hash_map::DefaultHasher::new(), b)
    }
}
impl fmt::Write for H128 {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}
impl H128 {
    pub fn bytes(&mut self, b: &[u8]) {
        self.0.write(b);
        self.1.write(b);
    }
    pub fn u64(&mut self, v: u64) {
        self.bytes(&v.to_le_bytes());
    }
    pub fn dbg(&mut self, v: &impl fmt::Debug) {
        use fmt::Write;
        let _ = write!(self, "{v:?};");
    }
    pub fn finish(&self) -> u128 {
        ((self.0.finish() as u128) << 64) | self.1.finish() as u128
    }
}

// ------------------------------------------------------------------ config helpers

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}
/// Small base configuration: period 1000ms, rtt 400ms, suspect 3000ms, forget 60s.
pub fn cfg() -> Config {
    let mut c = Config::simple();
    c.probe_period = ms(1000);
    c.probe_rtt = ms(400);
    c.num_indirect_probes = nz(2);
    c.max_transmissions = NonZeroU8::new(3).unwrap();
    c.suspect_to_down_after = ms(3000);
    c.remove_down_after = ms(60_000);
    c.max_packet_size = nz(1400);
    c.notify_down_members = false;
    c
}
pub fn pp(freq_ms: u64, n: usize) -> Option<foca::PeriodicParams> {
    Some(foca::PeriodicParams {
        frequency: ms(freq_ms),
        num_members: nz(n),
    })
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn stname(s: State) -> &'static str {
    match s {
        State::Alive => "Alive",
        State::Suspect => "Suspect",
        State::Down => "Down",
    }
}
pub fn fmt_call(c: &Call, codec: &McCodec) -> String {
    match c {
        Call::Data(d) => match parse(codec, d) {
            Ok(p) => format!(
                "recv {:?} src={:?}@{} dst={:?} updates={:?} items={:?} bytes={}",
                p.h.message,
                p.h.src,
                p.h.src_incarnation,
                p.h.dst,
                p.ups
                    .as_ref()
                    .map(|u| u.iter().map(fmt_m).collect::<Vec<_>>()),
                p.items.iter().map(|i| hex(i)).collect::<Vec<_>>(),
                hex(d)
            ),
            Err(e) => format!("recv ({e}) bytes={}", hex(d)),
        },
        Call::Apply(v, b) => {
            format!(
                "apply_many({:?}, {b})",
                v.iter().map(fmt_m).collect::<Vec<_>>()
            )
        }
        Call::AddB(d) => format!(
            "add_broadcast({} bytes {})",
            d.len(),
            hex(&d[..d.len().min(32)])
        ),
        o => format!("{o:?}"),
    }
}
pub fn fmt_m(m: &Member<Id>) -> String {
    format!(
        "{:?}@{}{}",
        m.id(),
        m.incarnation(),
        &stname(m.state())[..1]
    )
}
pub fn fmt_eff(e: &Eff, codec: &McCodec) -> String {
    match e {
        Eff::Send { dst, data } => match parse(codec, data) {
            Ok(p) => format!(
                "send to {:?}: {:?} src={:?}@{} dst={:?} updates={:?} items={:?}",
                dst,
                p.h.message,
                p.h.src,
                p.h.src_incarnation,
                p.h.dst,
                p.ups
                    .as_ref()
                    .map(|u| u.iter().map(fmt_m).collect::<Vec<_>>()),
                p.items.iter().map(|i| hex(i)).collect::<Vec<_>>()
            ),
            Err(e) => format!("send to {dst:?}: ({e}) {}", hex(data)),
        },
        Eff::Timer { t, after } => format!("timer {t:?} after {after:?}"),
        Eff::Notify(n) => format!("notify {n:?}"),
    }
}
