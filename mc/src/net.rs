//! Clusters of real instances in virtual time. A state is the whole cluster plus everything in
//! flight; transitions are the next event (timer or datagram) with every RNG answer and latency
//! of the scope's menus, the loss of a datagram, or a fault. Probe numbers are compared relative
//! to the sender's current one and time relative to now, so that steady states close.
use crate::base::*;
use crate::explore::*;
use foca::{Message, OwnedNotification, Timer};
use std::sync::Arc;

#[derive(Clone)]
pub struct Node {
    pub sut: Arc<Sut>,
    pub obs: Arc<Obs>,
    h: u128,
    /// number of its most recent Ping
    cur: u8,
    pub up: bool,
    /// has joined (announced, or formed from the start)
    pub joined: bool,
    pub left: bool,
}
#[derive(Clone, Debug)]
pub enum Cmd {
    Announce(u8),
    Apply(Vec<foca::Member<Id>>),
    Leave,
    AddB(Vec<u8>),
}
#[derive(Clone, Debug)]
pub enum EvK {
    Timer(Timer<Id>),
    Data {
        from: u8,
        d: Arc<Vec<u8>>,
        h: u128,
        origin: u8,
        num: u8,
    },
    Cmd(Cmd),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub at: u64,
    seq: u32,
    pub node: u8,
    pub k: EvK,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Crash(Vec<u8>),
    Leave(u8),
    /// crash some, leave others, all at once
    Mixed(Vec<u8>, Vec<u8>),
    /// cut the cluster: nodes of the mask on one side
    Cut(u32),
    Heal,
    /// the nodes of the mask are told that this node is Down
    Told(u32, u8),
}
#[derive(Clone)]
pub struct NS<M> {
    pub nodes: Vec<Node>,
    pub q: Vec<Ev>,
    pub now: u64,
    seq: u32,
    pub cut: u32,
    pub drops: u8,
    pub dev: u8,
    /// next fault of the plan
    pub fault_i: u8,
    pub mon: M,
    pub init_i: usize,
}
pub struct Step<'a, M> {
    pub t: u64,
    pub node: usize,
    pub call: &'a Call,
    pub out: &'a Out,
    pub o0: &'a Obs,
    pub codec: McCodec,
    /// after the step
    pub net: &'a NS<M>,
}
pub trait NMon: Clone + Send + Sync + Sized {
    /// about to move to time t
    fn tick(&mut self, _net: &NS<Self>, _t: u64) -> Result<(), Viol> {
        Ok(())
    }
    fn step(&mut self, s: &Step<'_, Self>) -> Result<(), Viol>;
    fn fault(&mut self, _f: &Fault, _net: &NS<Self>) {}
    fn dropped(&mut self, _net: &NS<Self>) {}
    /// may this fault strike now?
    fn fault_ok(&self, _f: &Fault, _net: &NS<Self>) -> bool {
        true
    }
    /// nothing left to check on this path
    fn done(&self, _net: &NS<Self>) -> bool {
        false
    }
    fn fp(&self, h: &mut H128, now: u64);
    /// worth counting
    fn stat(&self) -> Option<(&'static str, u64)> {
        None
    }
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub inits: Vec<Init>,
    /// (time, node, command)
    pub cmds: Vec<(u64, u8, Cmd)>,
    /// nodes that count as joined from the start
    pub joined: Vec<u8>,
}
#[derive(Clone)]
pub struct Net<M> {
    pub name: String,
    pub plans: Vec<Plan>,
    /// latency menu
    pub lats: Vec<u64>,
    /// extra latency per (from, to), added to the menu value
    pub skew: fn(u8, u8) -> u64,
    pub m: u32,
    pub rcap: usize,
    /// the stream an all-zero script stands for (see `TURN`)
    pub turn: (u32, u32),
    /// deviations from the all-zero RNG answers / first latency (255: unlimited)
    pub dev: u8,
    /// datagrams that may be lost, within the window of absolute times
    pub drops: u8,
    pub drop_window: (u64, u64),
    /// faults strike in this order, each at any instant of its window
    pub faults: Vec<(Vec<Fault>, (u64, u64))>,
    /// explore every order of simultaneous events
    pub ties: bool,
    pub horizon: u64,
    /// exploration starts from the state an undisturbed run has reached at this time
    pub warm: u64,
    /// timers further away than this are left out of the comparison of states
    pub far: u64,
    pub mon: M,
    pub depth: usize,
    pub max_states: usize,
}
pub fn no_skew(_: u8, _: u8) -> u64 {
    0
}
const DROP: u32 = 1000;
const FAULT: u32 = 2000;

fn probe_origin(m: &Message<Id>, src: u8, dst: u8) -> Option<(u8, u8)> {
    Some(match m {
        Message::Ping(n) => (src, *n),
        Message::Ack(n) => (dst, *n),
        Message::PingReq { probe_number, .. } => (src, *probe_number),
        Message::IndirectPing {
            origin,
            probe_number,
        } => (origin.addr, *probe_number),
        Message::IndirectAck {
            target,
            probe_number,
        } => (target.addr, *probe_number),
        Message::ForwardedAck { probe_number, .. } => (dst, *probe_number),
        _ => return None,
    })
}
fn zero_num(m: &mut Message<Id>) {
    match m {
        Message::Ping(n) | Message::Ack(n) => *n = 0,
        Message::PingReq { probe_number, .. }
        | Message::IndirectPing { probe_number, .. }
        | Message::IndirectAck { probe_number, .. }
        | Message::ForwardedAck { probe_number, .. } => *probe_number = 0,
        _ => {}
    }
}
impl Node {
    fn refresh(&mut self) {
        let mut d = self.sut.dump();
        if cfg!(foca_verif) {
            // relative probe number
            let k = "probe_number: ";
            if let Some(p) = d.find(k) {
                let b = p + k.len();
                let e = d[b..]
                    .find(|c: char| !c.is_ascii_digit())
                    .map_or(d.len(), |x| x + b);
                if d[b..e].parse::<u8>() == Ok(self.cur) {
                    d.replace_range(b..e, "=");
                }
            }
        }
        let mut h = H128::default();
        h.bytes(d.as_bytes());
        self.h = h.finish();
        self.obs = Arc::new(self.sut.obs());
    }
}

impl<M: NMon> Net<M> {
    pub fn base(name: &str, plan: Plan, mon: M) -> Self {
        Net {
            name: name.into(),
            plans: vec![plan],
            lats: vec![5],
            skew: no_skew,
            m: 1,
            rcap: 100_000,
            dev: 255,
            turn: (0, 0),
            drops: 0,
            drop_window: (0, u64::MAX),
            faults: vec![],
            ties: false,
            horizon: u64::MAX,
            warm: 0,
            far: u64::MAX,
            mon,
            depth: usize::MAX,
            max_states: 3_000_000,
        }
    }
    fn start(&self, i: usize) -> NS<M> {
        let p = &self.plans[i];
        let nodes = p
            .inits
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let sut = Sut::new(x);
                let obs = Arc::new(sut.obs());
                let mut n = Node {
                    sut: Arc::new(sut),
                    obs,
                    h: 0,
                    cur: 0,
                    up: true,
                    joined: p.joined.contains(&(i as u8)),
                    left: false,
                };
                n.refresh();
                n
            })
            .collect();
        let mut s = NS {
            nodes,
            q: vec![],
            now: 0,
            seq: 0,
            cut: 0,
            drops: self.drops,
            dev: self.dev,
            fault_i: 0,
            mon: self.mon.clone(),
            init_i: i,
        };
        for (t, n, c) in &p.cmds {
            let seq = s.seq;
            s.seq += 1;
            s.q.push(Ev {
                at: *t,
                seq,
                node: *n,
                k: EvK::Cmd(c.clone()),
            });
        }
        s.q.sort_by_key(|e| (e.at, e.seq));
        s
    }
    fn codec(&self, s: &NS<M>, n: usize) -> McCodec {
        self.plans[s.init_i].inits[n].codec
    }
    /// Execute one call on one node. `lat`: latency menu index per datagram sent.
    fn exec(
        &self,
        s: &mut NS<M>,
        node: usize,
        call: &Call,
        script: &[u8],
        lat: &[u8],
    ) -> (Result<(), Viol>, usize, usize) {
        let codec = self.codec(s, node);
        let o0 = s.nodes[node].obs.clone();
        let out = {
            let mut sut = (*s.nodes[node].sut).clone();
            TURN.set(self.turn);
            let out = with_rng(self.m, script, || sut.exec(call));
            TURN.set((0, 0));
            s.nodes[node].sut = Arc::new(sut);
            out
        };
        let used = out.draws;
        let mut sent = 0;
        if let Res::Panic(p) = &out.res {
            return (viol("panic", p.clone()), used, 0);
        }
        for e in &out.eff {
            match e {
                Eff::Timer { t, after } => {
                    let seq = s.seq;
                    s.seq += 1;
                    s.q.push(Ev {
                        at: s.now + after.as_millis() as u64,
                        seq,
                        node: node as u8,
                        k: EvK::Timer(t.clone()),
                    });
                }
                Eff::Send { dst, data } => {
                    let li = lat.get(sent).copied().unwrap_or(0) as usize;
                    sent += 1;
                    let p = match parse(&codec, data) {
                        Ok(p) => p,
                        Err(e) => return (viol("unparsable", e), used, sent),
                    };
                    let mut origin = 255;
                    let mut num = 0;
                    if let Some((o, n)) = probe_origin(&p.h.message, node as u8, dst.addr) {
                        origin = o;
                        num = n;
                    }
                    if let Message::Ping(n) = p.h.message {
                        s.nodes[node].cur = n;
                    }
                    let mut p = p;
                    zero_num(&mut p.h.message);
                    let mut h = H128::default();
                    h.dbg(&p);
                    let seq = s.seq;
                    s.seq += 1;
                    if (dst.addr as usize) < s.nodes.len() {
                        s.q.push(Ev {
                            at: s.now + self.lats[li] + (self.skew)(node as u8, dst.addr),
                            seq,
                            node: dst.addr,
                            k: EvK::Data {
                                from: node as u8,
                                d: Arc::new(data.clone()),
                                h: h.finish(),
                                origin,
                                num,
                            },
                        });
                    }
                }
                Eff::Notify(_) => {}
            }
        }
        s.nodes[node].refresh();
        s.q.sort_by_key(|e| (e.at, e.seq));
        let mut mon = s.mon.clone();
        let r = mon.step(&Step {
            t: s.now,
            node,
            call,
            out: &out,
            o0: &o0,
            codec,
            net: s,
        });
        s.mon = mon;
        (r, used, sent)
    }
    fn to_call(&self, s: &NS<M>, e: &Ev) -> Call {
        match &e.k {
            EvK::Timer(t) => Call::Timer(t.clone()),
            EvK::Data { d, .. } => Call::Data((**d).clone()),
            EvK::Cmd(c) => match c {
                Cmd::Announce(to) => Call::Announce(s.nodes[*to as usize].obs.me),
                Cmd::Apply(v) => Call::Apply(v.clone(), false),
                Cmd::Leave => Call::Leave,
                Cmd::AddB(d) => Call::AddB(d.clone()),
            },
        }
    }
    fn lost(&self, s: &NS<M>, e: &Ev) -> bool {
        let n = &s.nodes[e.node as usize];
        if !n.up {
            return true;
        }
        if let EvK::Data { from, .. } = e.k {
            if ((s.cut >> from) ^ (s.cut >> e.node)) & 1 == 1 {
                return true;
            }
        }
        false
    }
    /// drop events that can have no effect
    fn prune(&self, s: &mut NS<M>) {
        while let Some(e) = s.q.first() {
            if self.lost(s, e) {
                s.now = s.now.max(e.at);
                s.q.remove(0);
            } else {
                break;
            }
        }
    }
    fn cands(&self, s: &NS<M>) -> usize {
        if !self.ties {
            return s.q.len().min(1);
        }
        let Some(t) = s.q.first().map(|e| e.at) else {
            return 0;
        };
        s.q.iter().take_while(|e| e.at == t).count()
    }
    fn do_event(
        &self,
        s: &mut NS<M>,
        k: usize,
        script: &[u8],
        lat: &[u8],
    ) -> (Result<(), Viol>, usize, usize) {
        let t = s.q[k].at;
        if let Err(v) = {
            let mut mon = s.mon.clone();
            let r = mon.tick(s, t);
            s.mon = mon;
            r
        } {
            return (Err(v), 0, 0);
        }
        let e = s.q.remove(k);
        s.now = t;
        if self.lost(s, &e) {
            return (Ok(()), 0, 0);
        }
        let call = self.to_call(s, &e);
        let node = e.node as usize;
        if let EvK::Cmd(Cmd::Announce(_)) = e.k {
            s.nodes[node].joined = true;
        }
        if let EvK::Cmd(Cmd::Leave) = e.k {
            s.nodes[node].left = true;
        }
        let r = self.exec(s, node, &call, script, lat);
        if r.0.is_ok() {
            self.prune(s);
        }
        r
    }
    fn do_drop(&self, s: &mut NS<M>) -> Result<(), Viol> {
        let e = s.q.remove(0);
        s.now = e.at;
        s.drops -= 1;
        let mut mon = s.mon.clone();
        mon.dropped(s);
        s.mon = mon;
        self.prune(s);
        Ok(())
    }
    fn fault_alts(&self, s: &NS<M>) -> Vec<usize> {
        let Some((fs, (a, b))) = self.faults.get(s.fault_i as usize) else {
            return vec![];
        };
        let Some(t) = s.q.first().map(|e| e.at) else {
            return vec![];
        };
        // strikes right before the next event
        let leaving = |e: &Ev| matches!(e.k, EvK::Cmd(Cmd::Leave));
        if t < *a || t > *b || s.q.iter().any(leaving) {
            return vec![];
        }
        (0..fs.len())
            .filter(|i| s.mon.fault_ok(&fs[*i], s))
            .collect()
    }
    fn do_fault(&self, s: &mut NS<M>, i: usize) -> Result<(), Viol> {
        let f = self.faults[s.fault_i as usize].0[i].clone();
        if let Some(e) = s.q.first() {
            s.now = s.now.max(e.at);
        }
        s.fault_i += 1;
        let mut mon = s.mon.clone();
        mon.fault(&f, s);
        s.mon = mon;
        let (crash, leave): (Vec<u8>, Vec<u8>) = match &f {
            Fault::Crash(v) => (v.clone(), vec![]),
            Fault::Leave(x) => (vec![], vec![*x]),
            Fault::Mixed(a, b) => (a.clone(), b.clone()),
            _ => (vec![], vec![]),
        };
        for n in &crash {
            s.nodes[*n as usize].up = false;
        }
        s.q.retain(|e| s.nodes[e.node as usize].up);
        // leaving is a call of its own, before anything else happens
        for n in leave.into_iter().rev() {
            s.q.insert(
                0,
                Ev {
                    at: s.now,
                    seq: 0,
                    node: n,
                    k: EvK::Cmd(Cmd::Leave),
                },
            );
        }
        match f {
            Fault::Cut(m) => s.cut = m,
            Fault::Heal => s.cut = 0,
            Fault::Told(mask, x) => {
                let who = s.nodes[x as usize].obs.me;
                for i in 0..s.nodes.len() {
                    if i != x as usize && (mask >> i) & 1 == 1 && s.nodes[i].up {
                        self.exec(
                            s,
                            i,
                            &Call::Apply(vec![foca::Member::new(who, 0, foca::State::Down)], true),
                            &[],
                            &[],
                        )
                        .0?;
                    }
                }
            }
            _ => {}
        }
        self.prune(s);
        Ok(())
    }
    fn reduced(mut self) -> Self {
        if cfg!(not(foca_verif)) {
            // single schedule per fault/drop point
            self.m = 1;
            self.lats.truncate(1);
            self.ties = false;
            self.max_states = self.max_states.min(4_000);
        }
        self
    }
    fn entry(self) -> (String, Self, Limits) {
        let s = self.reduced();
        let lim = Limits {
            depth: s.depth,
            max_states: s.max_states,
        };
        (s.name.clone(), s, lim)
    }
    /// One big exploration, all threads on it.
    pub fn explore(self, r: &mut Report) {
        let (name, s, lim) = self.entry();
        r.bfs(&name, &s, lim);
    }
    /// Many small explorations.
    pub fn explore_many(v: Vec<Self>, r: &mut Report) {
        let v: Vec<_> = v.into_iter().map(|s| s.entry()).collect();
        r.bfs_many(&v);
    }
    /// The state after running without deviations until `t`.
    pub fn run_until(&self, i: usize, t: u64) -> Result<NS<M>, Viol> {
        let mut s = self.start(i);
        while s.q.first().is_some_and(|e| e.at <= t) {
            self.do_event(&mut s, 0, &[], &[]).0?;
        }
        Ok(s)
    }
}
fn split(script: &[u8]) -> (Vec<u8>, Vec<u8>) {
    match script.iter().position(|x| *x == 255) {
        Some(p) => (script[..p].to_vec(), script[p + 1..].to_vec()),
        None => (script.to_vec(), vec![]),
    }
}
fn weight(v: &[u8]) -> u8 {
    v.iter().filter(|x| **x != 0).count() as u8
}

impl<M: NMon> Model for Net<M> {
    type S = NS<M>;
    fn init(&self) -> Vec<NS<M>> {
        (0..self.plans.len())
            .map(|i| {
                if self.warm == 0 {
                    return self.start(i);
                }
                // (a run that goes wrong on the way is left to the exploration)
                self.run_until(i, self.warm)
                    .unwrap_or_else(|_| self.start(i))
            })
            .collect()
    }
    fn succ(&self, s: &NS<M>, sink: &mut dyn FnMut(Lbl, Result<Option<NS<M>>, Viol>)) {
        if s.q.is_empty() || s.q[0].at > self.horizon || s.mon.done(s) {
            return;
        }
        for k in 0..self.cands(s) {
            // every RNG script, for each every latency assignment
            all_scripts(self.m, self.rcap, |script| {
                let mut used = script.len();
                let mut sent = 0;
                let w = weight(script);
                if s.dev != 255 && w > s.dev {
                    // beyond the budget; report the draws so that the odometer advances
                    return script.len();
                }
                let mut lat: Vec<u8> = Vec::new();
                loop {
                    let wl = w.saturating_add(weight(&lat));
                    if s.dev == 255 || wl <= s.dev {
                        let mut n = s.clone();
                        if n.dev != 255 {
                            n.dev -= wl;
                        }
                        let (r, u, se) = self.do_event(&mut n, k, script, &lat);
                        used = u;
                        sent = se;
                        let mut full = script.to_vec();
                        full.resize(u, 0);
                        full.push(255);
                        let mut l = lat.clone();
                        l.resize(se, 0);
                        full.extend(l);
                        sink(
                            Lbl {
                                act: k as u32,
                                script: full,
                            },
                            r.map(|_| Some(n)),
                        );
                    }
                    // next latency assignment
                    lat.resize(sent, 0);
                    let mut p = sent;
                    let mut more = false;
                    while p > 0 {
                        p -= 1;
                        if (lat[p] as usize) + 1 < self.lats.len() {
                            lat[p] += 1;
                            more = true;
                            break;
                        }
                        lat[p] = 0;
                    }
                    if !more {
                        break;
                    }
                }
                used
            });
        }
        let e = &s.q[0];
        if s.drops > 0
            && e.at >= self.drop_window.0
            && e.at <= self.drop_window.1
            && matches!(e.k, EvK::Data { .. })
        {
            let mut n = s.clone();
            let r = self.do_drop(&mut n);
            sink(
                Lbl {
                    act: DROP,
                    script: vec![],
                },
                r.map(|_| Some(n)),
            );
        }
        for i in self.fault_alts(s) {
            let mut n = s.clone();
            let r = self.do_fault(&mut n, i);
            sink(
                Lbl {
                    act: FAULT + i as u32,
                    script: vec![],
                },
                r.map(|_| Some(n)),
            );
        }
    }
    fn fp(&self, s: &NS<M>) -> u128 {
        let mut h = H128::default();
        for n in &s.nodes {
            h.u64(n.h as u64);
            h.u64((n.h >> 64) as u64);
            h.u64(n.up as u64 | (n.joined as u64) << 1 | (n.left as u64) << 2);
        }
        h.u64(
            s.cut as u64 | (s.drops as u64) << 32 | (s.dev as u64) << 40 | (s.fault_i as u64) << 48,
        );
        h.u64(s.init_i as u64);
        // simultaneous events: their order of creation matters only when ties are not explored
        let mut v: Vec<(u64, u8, u128)> =
            s.q.iter()
                .filter(|e| e.at - s.now.min(e.at) < self.far)
                .map(|e| {
                    let mut g = H128::default();
                    match &e.k {
                        EvK::Timer(t) => g.dbg(t),
                        EvK::Data {
                            from,
                            h,
                            origin,
                            num,
                            ..
                        } => {
                            g.u64(*from as u64);
                            g.u64(*h as u64);
                            g.u64((*h >> 64) as u64);
                            g.u64(*origin as u64);
                            let c = s.nodes.get(*origin as usize).map_or(0, |n| n.cur);
                            g.u64(num.wrapping_sub(c) as u64);
                        }
                        EvK::Cmd(c) => g.dbg(c),
                    }
                    (e.at - s.now.min(e.at), e.node, g.finish())
                })
                .collect();
        if self.ties {
            v.sort();
        }
        for (a, b, c) in v {
            h.u64(a);
            h.u64(b as u64);
            h.u64(c as u64);
            h.u64((c >> 64) as u64);
        }
        // windows and horizon make absolute time matter
        if s.drops > 0
            && (s.now <= self.drop_window.1 && self.drop_window.1 != u64::MAX
                || s.now < self.drop_window.0)
        {
            h.u64(s.now);
        }
        if let Some((_, (a, b))) = self.faults.get(s.fault_i as usize) {
            if s.now < *a || (*b != u64::MAX && s.now <= *b) {
                h.u64(s.now);
            }
        }
        if self.horizon != u64::MAX {
            h.u64(s.now);
        }
        s.mon.fp(&mut h, s.now);
        h.finish()
    }
    fn describe(&self, s: &NS<M>, l: &Lbl) -> String {
        if l.act >= FAULT {
            let f = self
                .faults
                .get(s.fault_i as usize)
                .and_then(|f| f.0.get((l.act - FAULT) as usize));
            return format!("fault {f:?} just before t={:?}", s.q.first().map(|e| e.at));
        }
        let k = if l.act >= DROP { 0 } else { l.act as usize };
        let Some(e) = s.q.get(k) else {
            return "?".into();
        };
        let node = e.node as usize;
        let codec = self.codec(s, node);
        let call = self.to_call(s, e);
        if l.act >= DROP {
            return format!(
                "t={} LOST on the way to {node}: {}",
                e.at,
                fmt_call(&call, &codec)
            );
        }
        let (script, lat) = split(&l.script);
        let mut sut = (*s.nodes[node].sut).clone();
        TURN.set(self.turn);
        let out = with_rng(self.m, &script, || sut.exec(&call));
        TURN.set((0, 0));
        let mut t = format!("t={} node {node}: {}", e.at, fmt_call(&call, &codec));
        if script.iter().any(|x| *x != 0) {
            t.push_str(&format!(" rng={script:?}"));
        }
        if lat.iter().any(|x| *x != 0) {
            t.push_str(&format!(
                " latencies={:?}",
                lat.iter()
                    .map(|x| self.lats[*x as usize])
                    .collect::<Vec<_>>()
            ));
        }
        t.push_str(&format!(" -> {:?}", out.res));
        for e in &out.eff {
            t.push_str("; ");
            t.push_str(&fmt_eff(e, &codec));
        }
        let o = sut.obs();
        t.push_str(&format!(
            "; me={:?} members={:?}",
            o.me,
            o.all.iter().map(fmt_m).collect::<Vec<_>>()
        ));
        t
    }
    fn class(&self, s: &NS<M>, l: &Lbl) -> &'static str {
        if l.act >= FAULT {
            return "fault";
        }
        if l.act >= DROP {
            return "lost";
        }
        match s.q.get(l.act as usize).map(|e| &e.k) {
            Some(EvK::Timer(t)) => match t {
                Timer::ProbeRandomMember(_) => "probe",
                Timer::SendIndirectProbe { .. } => "indirect-probe",
                Timer::ChangeSuspectToDown { .. } => "suspect-timeout",
                Timer::RemoveDown(_) => "remove-down",
                Timer::PeriodicAnnounce(_) => "periodic-announce",
                Timer::PeriodicGossip(_) => "periodic-gossip",
                Timer::PeriodicAnnounceDown(_) => "periodic-announce-down",
            },
            Some(EvK::Data { .. }) => "datagram",
            Some(EvK::Cmd(_)) => "command",
            None => "",
        }
    }
}
pub fn note_of(out: &Out) -> impl Iterator<Item = &OwnedNotification<Id>> {
    out.notes()
}
