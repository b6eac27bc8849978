//! Single-instance model: one real instance, an environment that owns its timers and sends it
//! crafted datagrams and API calls, and a monitor that judges every step.
use crate::base::*;
use crate::explore::*;
use foca::{Config, Member, Message, State, Timer};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IdS {
    Fix(Id),
    Own,
    /// what the instance was called before its last identity change
    OwnPrev,
    /// own address, next generation
    OwnNext,
    /// target of the most recent Ping
    Pinged,
}
impl From<Id> for IdS {
    fn from(i: Id) -> Self {
        IdS::Fix(i)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    Abs(u8),
    /// number of the most recent Ping
    Cur,
    /// the one before
    Old,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inc {
    Abs(u16),
    /// relative to the instance's own incarnation
    Own(i32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MsgS {
    Ping(Num),
    Ack(Num),
    PingReq(IdS, Num),
    IndirectPing(IdS, Num),
    IndirectAck(IdS, Num),
    ForwardedAck(IdS, Num),
    Announce,
    Feed,
    Gossip,
    Broadcast,
    TurnUndead,
}
#[derive(Clone, Copy, Debug)]
pub struct Up(pub IdS, pub Inc, pub State);
pub fn up(i: impl Into<IdS>, inc: u16, s: State) -> Up {
    Up(i.into(), Inc::Abs(inc), s)
}
#[derive(Clone, Debug)]
pub struct MsgA {
    pub src: IdS,
    pub inc: u16,
    pub dst: IdS,
    pub msg: MsgS,
    pub ups: Vec<Up>,
    pub items: Vec<Vec<u8>>,
    /// garbage appended after everything
    pub tail: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum Act {
    Msg(MsgA),
    Raw(Vec<u8>),
    Timer(Timer<Id>),
    Announce(Id),
    Gossip,
    Broadcast,
    Leave,
    AddB(Vec<u8>),
    Apply(Vec<Up>, bool),
    ChangeId(IdS),
    Reuse,
    SetCfg(usize),
}
pub fn msg(src: impl Into<IdS>, msg: MsgS) -> MsgA {
    MsgA {
        src: src.into(),
        inc: 0,
        dst: IdS::Own,
        msg,
        ups: vec![],
        items: vec![],
        tail: vec![],
    }
}
impl MsgA {
    pub fn inc(mut self, i: u16) -> Self {
        self.inc = i;
        self
    }
    pub fn ups(mut self, u: &[Up]) -> Self {
        self.ups = u.to_vec();
        self
    }
    pub fn to(mut self, d: impl Into<IdS>) -> Self {
        self.dst = d.into();
        self
    }
    pub fn items(mut self, i: &[&[u8]]) -> Self {
        self.items = i.iter().map(|x| x.to_vec()).collect();
        self
    }
    pub fn tail(mut self, t: &[u8]) -> Self {
        self.tail = t.to_vec();
        self
    }
    pub fn a(self) -> Act {
        Act::Msg(self)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TMode {
    /// timers are never delivered
    Off,
    /// any outstanding timer, exactly once each
    Any,
    /// any outstanding timer, and delivered ones may be delivered again
    AnyDup,
    /// earliest deadline first; each delivery may be this late (ms)
    Order(Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Env {
    pub now: u64,
    pub timers: Vec<(u64, Timer<Id>)>,
    pub fired: Vec<Timer<Id>>,
    pub last_ping: Option<(Id, u8)>,
    pub old_num: Option<u8>,
    pub prev_me: Option<Id>,
    pub cfg_i: usize,
}

pub struct Ctx<'a> {
    pub init: &'a Init,
    pub cfg: &'a Config,
    /// configuration after the call (differs only after a successful set_config)
    pub cfg1: &'a Config,
    pub pre: &'a Sut,
    pub post: &'a Sut,
    pub o0: &'a Obs,
    pub o1: &'a Obs,
    pub call: &'a Call,
    pub out: &'a Out,
    pub env: &'a Env,
    pub env1: &'a Env,
}
impl Ctx<'_> {
    pub fn codec(&self) -> &McCodec {
        &self.init.codec
    }
    /// datagram given to the instance, if this call delivers a well-formed one
    pub fn input(&self) -> Option<Pkt> {
        match self.call {
            Call::Data(d) => parse(self.codec(), d).ok(),
            _ => None,
        }
    }
    pub fn packets(&self) -> Result<Vec<(Id, Pkt)>, Viol> {
        let mut v = Vec::new();
        for (dst, d) in self.out.sends() {
            match parse(self.codec(), d) {
                Ok(p) => v.push((*dst, p)),
                Err(e) => {
                    return viol(
                        "unparsable",
                        format!("datagram to {dst:?} is malformed: {e}"),
                    )
                }
            }
        }
        Ok(v)
    }
}
pub trait Mon: Clone + Send + Sync {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol>;
    fn fp(&self, h: &mut H128);
}
impl<A: Mon, B: Mon> Mon for (A, B) {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        self.0.step(c)?;
        self.1.step(c)
    }
    fn fp(&self, h: &mut H128) {
        self.0.fp(h);
        self.1.fp(h);
    }
}
/// Only "does not panic".
#[derive(Clone)]
pub struct NoMon;
impl Mon for NoMon {
    fn step(&mut self, _c: &Ctx<'_>) -> Result<(), Viol> {
        Ok(())
    }
    fn fp(&self, _h: &mut H128) {}
}

#[derive(Clone)]
pub struct SnS<M> {
    pub sut: Sut,
    pub env: Env,
    pub mon: M,
    pub init_i: usize,
}

pub struct Sn<M> {
    pub name: String,
    /// initial instances with the calls that bring each to its initial state
    pub inits: Vec<(Init, Vec<Act>)>,
    pub acts: Vec<Act>,
    pub tm: TMode,
    /// RNG menu size and cap on scripts per transition
    pub m: u32,
    pub rcap: usize,
    /// configurations for SetCfg; [0] must be the initial one when SetCfg is used
    pub cfgs: Vec<Config>,
    pub mon: M,
    pub depth: usize,
    pub max_states: usize,
    /// keep exploring after rejected set_config etc.
    pub enabled: fn(&Env, &Obs, &Act) -> bool,
}
pub fn always(_: &Env, _: &Obs, _: &Act) -> bool {
    true
}

fn resolve_id(s: IdS, me: Id, env: &Env) -> Option<Id> {
    match s {
        IdS::Fix(i) => Some(i),
        IdS::Own => Some(me),
        IdS::OwnPrev => env.prev_me,
        IdS::OwnNext => me.gen.checked_add(1).map(|gen| Id { gen, ..me }),
        IdS::Pinged => env.last_ping.map(|p| p.0),
    }
}
fn resolve_num(n: Num, env: &Env) -> Option<u8> {
    match n {
        Num::Abs(n) => Some(n),
        Num::Cur => env.last_ping.map(|p| p.1),
        Num::Old => env.old_num,
    }
}
pub fn resolve(
    a: &Act,
    sut: &Sut,
    me: Id,
    env: &Env,
    codec: &McCodec,
    cfgs: &[Config],
) -> Option<Call> {
    let rups = |v: &[Up]| -> Option<Vec<Member<Id>>> {
        v.iter()
            .map(|u| {
                let inc = match u.1 {
                    Inc::Abs(i) => i,
                    Inc::Own(d) => {
                        let x = sut.peek_inc(codec, None) as i32 + d;
                        u16::try_from(x).ok()?
                    }
                };
                Some(Member::new(resolve_id(u.0, me, env)?, inc, u.2))
            })
            .collect()
    };
    Some(match a {
        Act::Msg(m) => {
            let message = match m.msg {
                MsgS::Ping(n) => Message::Ping(resolve_num(n, env)?),
                MsgS::Ack(n) => Message::Ack(resolve_num(n, env)?),
                MsgS::PingReq(t, n) => Message::PingReq {
                    target: resolve_id(t, me, env)?,
                    probe_number: resolve_num(n, env)?,
                },
                MsgS::IndirectPing(t, n) => Message::IndirectPing {
                    origin: resolve_id(t, me, env)?,
                    probe_number: resolve_num(n, env)?,
                },
                MsgS::IndirectAck(t, n) => Message::IndirectAck {
                    target: resolve_id(t, me, env)?,
                    probe_number: resolve_num(n, env)?,
                },
                MsgS::ForwardedAck(t, n) => Message::ForwardedAck {
                    origin: resolve_id(t, me, env)?,
                    probe_number: resolve_num(n, env)?,
                },
                MsgS::Announce => Message::Announce,
                MsgS::Feed => Message::Feed,
                MsgS::Gossip => Message::Gossip,
                MsgS::Broadcast => Message::Broadcast,
                MsgS::TurnUndead => Message::TurnUndead,
            };
            let src = resolve_id(m.src, me, env)?;
            let dst = resolve_id(m.dst, me, env)?;
            let ups = rups(&m.ups)?;
            let mut d = build(codec, src, m.inc, dst, message, &ups, &m.items);
            d.extend_from_slice(&m.tail);
            Call::Data(d)
        }
        Act::Raw(v) => Call::Data(v.clone()),
        Act::Timer(t) => Call::Timer(t.clone()),
        Act::Announce(i) => Call::Announce(*i),
        Act::Gossip => Call::Gossip,
        Act::Broadcast => Call::Broadcast,
        Act::Leave => Call::Leave,
        Act::AddB(v) => Call::AddB(v.clone()),
        Act::Apply(v, b) => Call::Apply(rups(v)?, *b),
        Act::ChangeId(i) => Call::ChangeId(resolve_id(*i, me, env)?),
        Act::Reuse => Call::Reuse,
        Act::SetCfg(i) => Call::SetCfg(Box::new(cfgs[*i].clone())),
    })
}
fn tkey(t: &Timer<Id>) -> String {
    format!("{t:?}")
}
const TIMER_BASE: u32 = 10_000;
const DUP_BASE: u32 = 20_000;
const LATE: u32 = 100;

impl<M: Mon> Sn<M> {
    pub fn base(name: &str, init: Init, mon: M) -> Self {
        Sn {
            name: name.into(),
            cfgs: vec![init.cfg.clone()],
            inits: vec![(init, vec![])],
            acts: vec![],
            tm: TMode::Any,
            m: 1,
            rcap: 4096,
            mon,
            depth: 4,
            max_states: 2_000_000,
            enabled: always,
        }
    }
    fn cfg<'a>(&'a self, init: &'a Init, env: &Env) -> &'a Config {
        if env.cfg_i == 0 {
            &init.cfg
        } else {
            &self.cfgs[env.cfg_i]
        }
    }
    /// timers that may be delivered now, in canonical order
    fn due(&self, env: &Env) -> Vec<(u64, Timer<Id>)> {
        let mut v = env.timers.clone();
        v.sort_by_cached_key(|(d, t)| (*d, tkey(t)));
        v.dedup();
        if let TMode::Order(_) = self.tm {
            if let Some(d) = v.first().map(|x| x.0) {
                v.retain(|x| x.0 == d);
            }
        }
        v
    }
    fn call_of(&self, s: &SnS<M>, me: Id, l: u32) -> Option<(Call, u64)> {
        let init = &self.inits[s.init_i].0;
        if l >= DUP_BASE {
            let mut v = s.env.fired.clone();
            v.sort_by_cached_key(tkey);
            return v
                .get((l - DUP_BASE) as usize)
                .map(|t| (Call::Timer(t.clone()), 0));
        }
        if l >= TIMER_BASE {
            let k = l - TIMER_BASE;
            let due = self.due(&s.env);
            let (i, late) = match &self.tm {
                TMode::Order(ls) => ((k / LATE) as usize, *ls.get((k % LATE) as usize)?),
                _ => (k as usize, 0),
            };
            let (d, t) = due.get(i)?;
            let at = (*d).max(s.env.now) + late;
            return Some((Call::Timer(t.clone()), at));
        }
        let a = self.acts.get(l as usize)?;
        resolve(a, &s.sut, me, &s.env, &init.codec, &self.cfgs).map(|c| (c, s.env.now))
    }
    /// Perform transition `l` with RNG script on `s` in place.
    fn apply(
        &self,
        s: &mut SnS<M>,
        o0: &Obs,
        pre: &Sut,
        l: u32,
        call: &Call,
        at: u64,
        script: &[u8],
    ) -> (Result<(), Viol>, usize) {
        let init = &self.inits[s.init_i].0;
        let env0 = s.env.clone();
        if l >= TIMER_BASE && l < DUP_BASE {
            if let Call::Timer(t) = call {
                // consume one instance
                let k = s
                    .env
                    .timers
                    .iter()
                    .enumerate()
                    .filter(|(_, x)| x.1 == *t)
                    .min_by_key(|(_, x)| x.0)
                    .map(|x| x.0);
                if let Some(k) = k {
                    s.env.timers.remove(k);
                }
                s.env.now = s.env.now.max(at);
                if self.tm == TMode::AnyDup && !s.env.fired.contains(t) {
                    s.env.fired.push(t.clone());
                }
            }
        }
        let out = with_rng(self.m, script, || s.sut.exec(call));
        let used = out.draws;
        if let Res::Panic(p) = &out.res {
            return (viol("panic", format!("call panicked: {p}")), used);
        }
        if self.tm != TMode::Off {
            for (t, after) in out.timers() {
                let d = match self.tm {
                    TMode::Order(_) => s.env.now + after.as_millis() as u64,
                    _ => 0,
                };
                s.env.timers.push((d, t.clone()));
            }
        }
        if let (Call::SetCfg(_), true, Some(Act::SetCfg(i))) =
            (call, out.ok(), self.acts.get(l as usize))
        {
            s.env.cfg_i = *i;
        }
        let o1 = s.sut.obs();
        if o1.me != o0.me {
            s.env.prev_me = Some(o0.me);
        }
        for (dst, d) in out.sends() {
            if let Ok(p) = parse(&init.codec, d) {
                if let Message::Ping(n) = p.h.message {
                    s.env.old_num = s.env.last_ping.map(|x| x.1);
                    s.env.last_ping = Some((*dst, n));
                }
            }
        }
        let cfg = self.cfg(init, &env0);
        let cfg1 = self.cfg(init, &s.env);
        let env1 = s.env.clone();
        let r = s.mon.step(&Ctx {
            init,
            cfg,
            cfg1,
            pre,
            post: &s.sut,
            o0,
            o1: &o1,
            call,
            out: &out,
            env: &env0,
            env1: &env1,
        });
        (r, used)
    }
    fn labels(&self, s: &SnS<M>, o: &Obs) -> Vec<u32> {
        let mut v = Vec::new();
        for (i, a) in self.acts.iter().enumerate() {
            if (self.enabled)(&s.env, o, a) {
                v.push(i as u32);
            }
        }
        if self.tm != TMode::Off {
            let due = self.due(&s.env);
            for i in 0..due.len() {
                if !(self.enabled)(&s.env, o, &Act::Timer(due[i].1.clone())) {
                    continue;
                }
                match &self.tm {
                    TMode::Order(ls) => {
                        for k in 0..ls.len() {
                            v.push(TIMER_BASE + i as u32 * LATE + k as u32);
                        }
                    }
                    _ => v.push(TIMER_BASE + i as u32),
                }
            }
            if self.tm == TMode::AnyDup {
                for i in 0..s.env.fired.len() {
                    v.push(DUP_BASE + i as u32);
                }
            }
        }
        v
    }
    pub fn explore(self, r: &mut Report) {
        let name = self.name.clone();
        if std::env::var_os("MC_LINT").is_some() {
            // settings that could never take effect
            let z = |x: &Option<foca::PeriodicParams>| x.is_none();
            for (i, c) in self.cfgs.iter().enumerate() {
                let a = &self.cfgs[0];
                if a.probe_period != c.probe_period
                    || a.probe_rtt != c.probe_rtt
                    || z(&a.periodic_announce) && !z(&c.periodic_announce)
                    || z(&a.periodic_gossip) && !z(&c.periodic_gossip)
                    || z(&a.periodic_announce_to_down_members)
                        && !z(&c.periodic_announce_to_down_members)
                {
                    eprintln!("LINT: {name}: settings {i} are never accepted");
                }
            }
        }
        let mut lim = Limits {
            depth: self.depth,
            max_states: self.max_states,
        };
        if cfg!(not(foca_verif)) {
            // no deduplication possible: stay shallow
            lim.max_states = lim.max_states.min(2_000);
        }
        // the prefixes themselves must satisfy the monitor
        for i in 0..self.inits.len() {
            let mut t = String::new();
            if let Err(v) = self.make_init(i, &mut t) {
                r.violation(
                    v,
                    format!("scope: {name}\ninit: {i} (while building the initial state)\n{t}"),
                );
                return;
            }
        }
        r.bfs(&name, &self, lim);
    }
    fn make_init(&self, i: usize, trace: &mut String) -> Result<SnS<M>, Viol> {
        let (init, prefix) = &self.inits[i];
        let mut s = SnS {
            sut: Sut::new(init),
            env: Env {
                now: 0,
                timers: vec![],
                fired: vec![],
                last_ping: None,
                old_num: None,
                prev_me: None,
                cfg_i: 0,
            },
            mon: self.mon.clone(),
            init_i: i,
        };
        for a in prefix {
            let o0 = s.sut.obs();
            let Some(call) = resolve(a, &s.sut, o0.me, &s.env, &init.codec, &self.cfgs) else {
                continue;
            };
            trace.push_str(&format!("{}\n", fmt_call(&call, &init.codec)));
            let pre = s.sut.clone();
            // a prefix timer is consumed when outstanding
            let mut l = u32::MAX;
            if let Call::Timer(t) = &call {
                if let Some(x) = s.env.timers.iter().find(|x| x.1 == *t) {
                    l = TIMER_BASE;
                    let at = x.0;
                    self.apply(&mut s, &o0, &pre, l, &call, at, &[]).0?;
                    continue;
                }
            }
            self.apply(&mut s, &o0, &pre, l, &call, 0, &[]).0?;
        }
        Ok(s)
    }
}

impl<M: Mon> Model for Sn<M> {
    type S = SnS<M>;
    fn init(&self) -> Vec<SnS<M>> {
        let mut t = String::new();
        (0..self.inits.len())
            .filter_map(|i| self.make_init(i, &mut t).ok())
            .collect()
    }
    fn succ(&self, s: &SnS<M>, sink: &mut dyn FnMut(Lbl, Result<Option<SnS<M>>, Viol>)) {
        let o0 = s.sut.obs();
        for l in self.labels(s, &o0) {
            let Some((call, at)) = self.call_of(s, o0.me, l) else {
                continue;
            };
            let (_, complete) = all_scripts(self.m, self.rcap, |script| {
                let mut n = s.clone();
                let (r, used) = self.apply(&mut n, &o0, &s.sut, l, &call, at, script);
                let mut full = script.to_vec();
                full.resize(used, 0);
                sink(
                    Lbl {
                        act: l,
                        script: full,
                    },
                    r.map(|_| Some(n)),
                );
                used
            });
            if !complete {
                RCAP_HIT.store(true, std::sync::atomic::Ordering::Relaxed);
            }
        }
    }
    fn fp(&self, s: &SnS<M>) -> u128 {
        let mut h = H128::default();
        h.bytes(s.sut.dump().as_bytes());
        h.u64(s.init_i as u64);
        h.u64(s.env.cfg_i as u64);
        h.dbg(&(s.env.last_ping, s.env.old_num, s.env.prev_me));
        // of what is overdue only the order matters
        let mut due: Vec<u64> = s.env.timers.iter().map(|x| x.0).filter(|d| *d < s.env.now).collect();
        due.sort();
        due.dedup();
        let mut t: Vec<(i64, String)> = s
            .env
            .timers
            .iter()
            .map(|(d, t)| match due.iter().position(|x| x == d) {
                Some(p) => (p as i64 - due.len() as i64, tkey(t)),
                None => ((*d - s.env.now) as i64, tkey(t)),
            })
            .collect();
        t.sort();
        h.dbg(&t);
        let mut t: Vec<String> = s.env.fired.iter().map(tkey).collect();
        t.sort();
        h.dbg(&t);
        s.mon.fp(&mut h);
        h.finish()
    }
    fn describe(&self, s: &SnS<M>, l: &Lbl) -> String {
        let init = &self.inits[s.init_i].0;
        let o0 = s.sut.obs();
        let Some((call, at)) = self.call_of(s, o0.me, l.act) else {
            return "?".into();
        };
        let mut n = s.sut.clone();
        let out = with_rng(self.m, &l.script, || n.exec(&call));
        let o1 = n.obs();
        let mut t = fmt_call(&call, &init.codec);
        if matches!(self.tm, TMode::Order(_)) {
            t.push_str(&format!(" (t={at}ms)"));
        }
        if !l.script.is_empty() {
            t.push_str(&format!(" rng={:?}", l.script));
        }
        t.push_str(&format!(" -> {:?}", out.res));
        for e in &out.eff {
            t.push_str("; ");
            t.push_str(&fmt_eff(e, &init.codec));
        }
        t.push_str(&format!(
            "; me={:?} members={:?}",
            o1.me,
            o1.all.iter().map(fmt_m).collect::<Vec<_>>()
        ));
        t
    }
    fn class(&self, s: &SnS<M>, l: &Lbl) -> &'static str {
        if l.act >= DUP_BASE {
            return "timer-again";
        }
        if l.act >= TIMER_BASE {
            return "timer";
        }
        let _ = s;
        match &self.acts[l.act as usize] {
            Act::Msg(m) => match m.msg {
                MsgS::Ping(_) => "recv:Ping",
                MsgS::Ack(_) => "recv:Ack",
                MsgS::PingReq(..) => "recv:PingReq",
                MsgS::IndirectPing(..) => "recv:IndirectPing",
                MsgS::IndirectAck(..) => "recv:IndirectAck",
                MsgS::ForwardedAck(..) => "recv:ForwardedAck",
                MsgS::Announce => "recv:Announce",
                MsgS::Feed => "recv:Feed",
                MsgS::Gossip => "recv:Gossip",
                MsgS::Broadcast => "recv:Broadcast",
                MsgS::TurnUndead => "recv:TurnUndead",
            },
            Act::Raw(_) => "recv:raw",
            Act::Timer(_) => "timer(crafted)",
            Act::Announce(_) => "announce",
            Act::Gossip => "gossip",
            Act::Broadcast => "broadcast",
            Act::Leave => "leave_cluster",
            Act::AddB(_) => "add_broadcast",
            Act::Apply(..) => "apply_many",
            Act::ChangeId(_) => "change_identity",
            Act::Reuse => "reuse_down_identity",
            Act::SetCfg(_) => "set_config",
        }
    }
}
pub static RCAP_HIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
