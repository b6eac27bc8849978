//! C01: membership knowledge is a join-semilattice.
use crate::base::*;
use crate::explore::*;
use crate::mons::{accept, Acc};
use crate::sn::*;
use foca::State::{Alive, Down, Suspect};
use foca::{Member, Message, OwnedNotification, State, Timer};

const MAX: u16 = u16::MAX;

// ------------------------------------------------------------------ the order

fn rank(s: State) -> u8 {
    match s {
        Alive => 0,
        Suspect => 1,
        Down => 2,
    }
}
/// Join of two records of one address.
pub fn join(a: &Member<Id>, b: &Member<Id>) -> Member<Id> {
    if a.id() != b.id() {
        return if wins(a.id(), b.id()) {
            a.clone()
        } else {
            b.clone()
        };
    }
    let k = |m: &Member<Id>| {
        if m.state() == Down {
            (true, 0, 0)
        } else {
            (false, m.incarnation(), rank(m.state()))
        }
    };
    if k(b) > k(a) {
        b.clone()
    } else {
        a.clone()
    }
}
/// Equal, except for the incarnation remembered next to Down.
pub fn same(a: Option<&Member<Id>>, b: Option<&Member<Id>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            a.id() == b.id()
                && a.state() == b.state()
                && (a.state() == Down || a.incarnation() == b.incarnation())
        }
        _ => false,
    }
}
type View = std::collections::BTreeMap<u8, Member<Id>>;
fn learn(v: &mut View, u: &Member<Id>) {
    let a = u.id().addr;
    let n = match v.get(&a) {
        None => u.clone(),
        Some(r) => join(r, u),
    };
    v.insert(a, n);
}
fn view(o: &Obs) -> Result<View, Viol> {
    let mut v = View::new();
    for m in &o.all {
        if v.insert(m.id().addr, m.clone()).is_some() {
            return viol(
                "two-records",
                format!("two records of address {}", m.id().addr),
            );
        }
    }
    for m in &o.act {
        if !v.values().any(|x| x == m) || m.state() == Down {
            return viol(
                "views-disagree",
                format!(
                    "iter_members yields {} which iter_membership_state does not",
                    fmt_m(m)
                ),
            );
        }
    }
    if v.values().filter(|m| m.state() != Down).count() != o.act.len() {
        return viol(
            "views-disagree",
            "iter_members and iter_membership_state disagree",
        );
    }
    Ok(v)
}
fn fv(v: &View) -> String {
    format!("{:?}", v.values().map(fmt_m).collect::<Vec<_>>())
}
/// Equal on every address but `skip`.
fn agree(a: &View, b: &View, skip: &[u8]) -> Option<u8> {
    a.keys()
        .chain(b.keys())
        .find(|k| !skip.contains(k) && !same(a.get(k), b.get(k)))
        .copied()
}

/// Re-applying its own full state changes nothing.
fn reapply(s: &Sut, o: &Obs) -> Result<(), Viol> {
    for b in [true, false] {
        let mut c = s.clone();
        let out = quiet_rng(|| c.exec(&Call::Apply(o.all.clone(), b)));
        let o1 = c.obs();
        if let Res::Panic(p) = &out.res {
            return viol("panic", p.clone());
        }
        let (v0, v1) = (view(o)?, view(&o1)?);
        // (an instance that was idle right after an identity change may become active again)
        let told = out
            .notes()
            .any(|n| !matches!(n, OwnedNotification::Active | OwnedNotification::Idle));
        let upd = out.sends().next().is_none() && o1.upd != o.upd;
        if v0 != v1 || o1.me != o.me || upd || !out.ok() || told {
            // its own current identity listed Down (declared so before it was adopted)
            let own = o.all.iter().any(|m| *m.id() == o.me && m.state() == Down);
            let rest = agree(&v0, &v1, &[o.me.addr]).is_none() && out.ok();
            return viol(
                if own && rest { "reapply-own-identity-down" } else { "reapply" },
                format!(
                    "re-applying its own full state (broadcast={b}) is not a no-op: {} -> {}, identity {:?} -> {:?}, result {:?}, effects {:?}",
                    fv(&v0),
                    fv(&v1),
                    o.me,
                    o1.me,
                    out.res,
                    out.eff.iter().map(|e| fmt_eff(e, &FIXED)).collect::<Vec<_>>()
                ),
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ monitor for histories

#[derive(Clone)]
pub struct JoinMon;
impl Mon for JoinMon {
    fn step(&mut self, c: &Ctx<'_>) -> Result<(), Viol> {
        let (v0, v1) = (view(c.o0)?, view(c.o1)?);
        let me = c.o0.me.addr;
        if c.o1.me.addr != me {
            return Ok(());
        }
        let mut hi = v0.clone();
        let mut exact = true;
        match c.call {
            Call::Apply(us, _) => {
                for u in us {
                    if u.id().addr != me {
                        learn(&mut hi, u);
                    }
                }
                exact = c.out.ok();
            }
            Call::Data(d) => {
                let i = accept(c.codec(), c.cfg, c.o0, d);
                if let (Some(h), Acc::Active | Acc::Inactive) = (&i.h, &i.acc) {
                    learn(&mut hi, &Member::new(h.src, h.src_incarnation, Alive));
                    if i.acc == Acc::Active {
                        for u in &i.ups {
                            if u.id().addr != me {
                                learn(&mut hi, u);
                            }
                        }
                    }
                }
                exact = !matches!(c.out.res, Res::Err(ErrK::Encode(_)));
            }
            Call::Timer(Timer::RemoveDown(i)) => {
                if v0
                    .get(&i.addr)
                    .is_some_and(|m| m.id() == i && m.state() == Down)
                {
                    hi.remove(&i.addr);
                    // keeping it longer is not this property's business
                    if v1.contains_key(&i.addr) {
                        hi.insert(i.addr, v0[&i.addr].clone());
                    }
                }
            }
            Call::Timer(_) => {
                // probing and timeouts may only raise suspicions or declare members down
                for (a, m) in &v1 {
                    if let Some(b) = v0.get(a) {
                        if *a != me && !same(Some(&join(b, m)), Some(m)) {
                            return viol(
                                "backward",
                                format!("record moved backwards: {} -> {}", fmt_m(b), fmt_m(m)),
                            );
                        }
                    } else if *a != me {
                        return viol(
                            "invented",
                            format!("record {} appeared out of nowhere", fmt_m(m)),
                        );
                    }
                }
                if let Some(a) = v0.keys().find(|a| !v1.contains_key(a)) {
                    return viol("forgotten", format!("record of address {a} vanished"));
                }
                return Ok(());
            }
            _ => {}
        }
        if exact {
            if let Some(a) = agree(&hi, &v1, &[me]) {
                return viol(
                    "not-the-join",
                    format!(
                        "address {a}: expected {:?}, instance has {:?} (before: {:?})",
                        hi.get(&a).map(fmt_m),
                        v1.get(&a).map(fmt_m),
                        v0.get(&a).map(fmt_m)
                    ),
                );
            }
        }
        if v0 != v1 {
            reapply(c.post, c.o1)?;
        }
        Ok(())
    }
    fn fp(&self, _h: &mut H128) {}
}

// ------------------------------------------------------------------ scopes

fn sut() -> Sut {
    let mut c = cfg();
    c.max_transmissions = std::num::NonZeroU8::new(1).unwrap();
    Sut::new(&Init::new(idk(0, 1, K_RENEW), c))
}
const BOUND: [u16; 7] = [0, 1, 2, 32767, 32768, MAX - 1, MAX];

/// What kind of delivery a single update gets.
const VIAS: usize = 4;
fn deliver(s: &mut Sut, via: usize, us: &[Member<Id>]) -> Out {
    deliver_rng(s, via, us, &[])
}
fn deliver_rng(s: &mut Sut, via: usize, us: &[Member<Id>], script: &[u8]) -> Out {
    let me = *s.f.identity();
    let call = match via {
        0 => Call::Apply(us.to_vec(), false),
        1 => Call::Apply(us.to_vec(), true),
        2 => Call::Data(build(&FIXED, id(9, 0), 0, me, Message::Gossip, us, &[])),
        _ => Call::Data(build(&FIXED, id(9, 0), 0, me, Message::Ping(3), us, &[])),
    };
    with_rng(if script.is_empty() { 1 } else { 256 }, script, || s.exec(&call))
}
fn expect(
    s: &Sut,
    want: &View,
    skip: &[u8],
    how: &dyn Fn() -> String,
) -> Result<(), (Viol, String)> {
    let o = s.obs();
    let v = view(&o).map_err(|e| (e, how()))?;
    if let Some(a) = agree(want, &v, skip) {
        return Err((
            Viol {
                sig: "not-the-join".into(),
                msg: format!(
                    "address {a}: expected {:?}, instance has {:?}",
                    want.get(&a).map(fmt_m),
                    v.get(&a).map(fmt_m)
                ),
            },
            format!("scope: table\n{}", how()),
        ));
    }
    Ok(())
}

fn table(r: &mut Report) {
    let mut recs: Vec<Option<Member<Id>>> = vec![None];
    for g in 0..3 {
        for i in BOUND {
            for s in [Alive, Suspect, Down] {
                recs.push(Some(Member::new(id(1, g), i, s)));
            }
        }
    }
    let full = cfg!(foca_verif);
    let mut n = 0u64;
    let jobs: Vec<(Option<Member<Id>>, bool)> = recs
        .iter()
        .flat_map(|x| [(x.clone(), false), (x.clone(), true)])
        .collect();
    r.jobs(
        &jobs,
        |(rec, datagram)| {
            let mut base = sut();
            let mut v0 = View::new();
            if *datagram {
                // the messenger is already known
                let _ = deliver(&mut base, 2, &[]);
                learn(&mut v0, &Member::alive(id(9, 0)));
            }
            if let Some(m) = rec {
                let _ = deliver(&mut base, 0, &[m.clone()]);
                learn(&mut v0, m);
            }
            let mut evals = 0u64;
            let mut one = |u: &Member<Id>, via: usize| -> Result<(), (Viol, String)> {
                let mut s = base.clone();
                let mut want = v0.clone();
                learn(&mut want, u);
                let out = deliver(&mut s, via, std::slice::from_ref(u));
                evals += 1;
                let how = || {
                    format!(
                        "record {:?}, update {} (delivery {via}), result {:?}",
                        rec.as_ref().map(fmt_m),
                        fmt_m(u),
                        out.res
                    )
                };
                if let Res::Panic(p) = &out.res {
                    return Err((
                        Viol {
                            sig: "panic".into(),
                            msg: p.clone(),
                        },
                        how(),
                    ));
                }
                expect(&s, &want, &[], &how)
            };
            for g in 0..3u8 {
                let same_id = rec.as_ref().is_some_and(|m| m.id().gen == g);
                for st in [Alive, Suspect, Down] {
                    if same_id && full && !*datagram {
                        for i in 0..=MAX {
                            one(&Member::new(id(1, g), i, st), 0)?;
                        }
                    }
                    for i in BOUND {
                        let u = Member::new(id(1, g), i, st);
                        for via in if *datagram { [2, 3] } else { [0, 1] } {
                            one(&u, via)?;
                        }
                    }
                }
            }
            // learned from the header of its own datagram
            for g in 0..3u8 {
                for i in BOUND {
                    let mut s = base.clone();
                    let mut want = v0.clone();
                    learn(&mut want, &Member::new(id(1, g), i, Alive));
                    let me = *s.f.identity();
                    let out = with_rng(1, &[], || {
                        s.exec(&Call::Data(build(
                            &FIXED,
                            id(1, g),
                            i,
                            me,
                            Message::Gossip,
                            &[],
                            &[],
                        )))
                    });
                    evals += 1;
                    expect(&s, &want, &[], &|| {
                        format!(
                            "record {:?}, heard from {:?}@{i}: {:?}",
                            rec.as_ref().map(fmt_m),
                            id(1, g),
                            out.res
                        )
                    })?;
                }
            }
            Ok(evals)
        },
        |x| n += x,
    );
    r.transitions += n;
    r.states += jobs.len() as u64;
    r.count("precedence_table_cells", n);
    r.scope_line(format!(
        "table: {} records x updates over every incarnation: {n} cells",
        jobs.len()
    ));
}

struct Seq<'a> {
    dom: &'a [Member<Id>],
    len: usize,
    via: usize,
    rng_m: u32,
    nodes: u64,
    max_reapply: usize,
}
impl Seq<'_> {
    fn go(&mut self, s: &Sut, v: &View, hist: &mut Vec<usize>) -> Result<(), (Viol, String)> {
        if hist.len() == self.len {
            return Ok(());
        }
        for k in 0..self.dom.len() {
            let u = &self.dom[k];
            let mut want = v.clone();
            learn(&mut want, u);
            hist.push(k);
            let mut res = Ok(());
            let mut next = None;
            let (via, m) = (self.via, self.rng_m);
            let mut nodes = 0;
            all_scripts(m, 64, |script| {
                let mut c = s.clone();
                let me = *c.f.identity();
                let call = match via {
                    0 => Call::Apply(vec![u.clone()], true),
                    _ => Call::Data(build(
                        &FIXED,
                        id(9, 0),
                        0,
                        me,
                        Message::Gossip,
                        std::slice::from_ref(u),
                        &[],
                    )),
                };
                let out = with_rng(m, script, || c.exec(&call));
                nodes += 1;
                if res.is_ok() {
                    let dom = self.dom;
                    let h = hist.clone();
                    let how = move || {
                        format!(
                            "updates in this order: {:?} (delivery {via}, rng {script:?})",
                            h.iter().map(|k| fmt_m(&dom[*k])).collect::<Vec<_>>()
                        )
                    };
                    if let Res::Panic(p) = &out.res {
                        res = Err((
                            Viol {
                                sig: "panic".into(),
                                msg: p.clone(),
                            },
                            how(),
                        ));
                    } else {
                        let skip: &[u8] = if via == 0 { &[] } else { &[9] };
                        res = expect(&c, &want, skip, &how);
                        if res.is_ok() && h_len_ok(hist.len(), self.max_reapply) {
                            let o = c.obs();
                            res = reapply(&c, &o).map_err(|e| (e, how()));
                        }
                    }
                }
                next = Some(c);
                out.draws
            });
            self.nodes += nodes;
            res?;
            if let Some(c) = next {
                self.go(&c, &want, hist)?;
            }
            hist.pop();
        }
        Ok(())
    }
}
fn h_len_ok(n: usize, max: usize) -> bool {
    n <= max
}

fn sequences(r: &mut Report) {
    let t = r.thorough();
    // one address with everything, a second one, so that records interleave
    let mut dom = Vec::new();
    for g in 0..2 {
        for i in [0, 1, MAX] {
            for s in [Alive, Suspect, Down] {
                dom.push(Member::new(id(1, g), i, s));
            }
        }
    }
    for (i, s) in [(0, Alive), (0, Suspect), (1, Alive), (0, Down)] {
        dom.push(Member::new(id(2, 0), i, s));
    }
    dom.push(Member::new(id(2, 1), 0, Suspect));
    let len = if cfg!(not(foca_verif)) {
        2
    } else if t {
        6
    } else {
        5
    };
    let jobs: Vec<(usize, usize)> = (0..dom.len()).flat_map(|k| [(k, 0), (k, 1)]).collect();
    let mut n = 0;
    let d2 = dom.clone();
    r.jobs(
        &jobs,
        |(k, via)| {
            // first update fixed per job
            let mut q = Seq {
                dom: &d2,
                len,
                via: *via,
                rng_m: 1,
                nodes: 0,
                max_reapply: 3,
            };
            let mut s = sut();
            let mut v = View::new();
            if *via == 1 {
                learn(&mut v, &Member::alive(id(9, 0)));
            }
            let first = &d2[*k];
            let _ = deliver(
                &mut s,
                if *via == 0 { 0 } else { 2 },
                std::slice::from_ref(first),
            );
            learn(&mut v, first);
            let mut h = vec![*k];
            expect(&s, &v, &[], &|| format!("first update {}", fmt_m(first)))?;
            q.go(&s, &v, &mut h)?;
            Ok(q.nodes)
        },
        |x| n += x,
    );
    r.transitions += n;
    r.states += n;
    r.count("update_sequences", n);
    r.scope_line(format!("sequences: every sequence of up to {len} updates out of {} delivered one at a time (apply_many, Gossip): {n}", dom.len()));

    // insertion position choices
    if r.failed() {
        return;
    }
    let small: Vec<Member<Id>> = [1u8, 2, 3, 4]
        .iter()
        .flat_map(|a| {
            [
                Member::new(id(*a, 0), 0, Alive),
                Member::new(id(*a, 0), 0, Down),
                Member::new(id(*a, 1), 0, Suspect),
            ]
        })
        .collect();
    let mut n = 0;
    let jobs: Vec<usize> = (0..small.len()).collect();
    let len = if cfg!(not(foca_verif)) {
        2
    } else if t {
        5
    } else {
        4
    };
    r.jobs(
        &jobs,
        |k| {
            let mut q = Seq {
                dom: &small,
                len,
                via: 0,
                rng_m: 12,
                nodes: 0,
                max_reapply: 2,
            };
            let mut s = sut();
            let mut v = View::new();
            let _ = deliver(&mut s, 0, std::slice::from_ref(&small[*k]));
            learn(&mut v, &small[*k]);
            q.go(&s, &v, &mut vec![*k])?;
            Ok(q.nodes)
        },
        |x| n += x,
    );
    r.transitions += n;
    r.states += n;
    r.scope_line(format!("positions: every sequence of up to {len} updates out of {} over four addresses, every insertion position: {n}", small.len()));

    // whole batches: every sequence delivered by one call / one datagram, against the join
    if r.failed() {
        return;
    }
    let len = if cfg!(not(foca_verif)) {
        2
    } else if t {
        4
    } else {
        3
    };
    let mut n = 0u64;
    let jobs: Vec<usize> = (0..dom.len()).collect();
    let dom2 = dom.clone();
    r.jobs(
        &jobs,
        |k| {
            let mut idx = vec![*k; 1];
            idx.resize(len, 0);
            let mut evals = 0u64;
            let base = sut();
            loop {
                let us: Vec<Member<Id>> = idx.iter().map(|i| dom2[*i].clone()).collect();
                for via in 0..VIAS {
                    let mut s = base.clone();
                    let mut want = View::new();
                    if via >= 2 {
                        learn(&mut want, &Member::alive(id(9, 0)));
                    }
                    for u in &us {
                        learn(&mut want, u);
                    }
                    let out = deliver(&mut s, via, &us);
                    evals += 1;
                    let how = || {
                        format!(
                            "one batch {:?} (delivery {via}): {:?}",
                            us.iter().map(fmt_m).collect::<Vec<_>>(),
                            out.res
                        )
                    };
                    if let Res::Panic(p) = &out.res {
                        return Err((
                            Viol {
                                sig: "panic".into(),
                                msg: p.clone(),
                            },
                            how(),
                        ));
                    }
                    expect(&s, &want, &[], &how)?;
                }
                let mut p = 1;
                while p < len {
                    idx[p] += 1;
                    if idx[p] < dom2.len() {
                        break;
                    }
                    idx[p] = 0;
                    p += 1;
                }
                if p >= len {
                    return Ok(evals);
                }
            }
        },
        |x| n += x,
    );
    r.transitions += n;
    r.count("update_batches", n);
    r.scope_line(format!("batches: every sequence of {len} updates delivered at once (apply_many, Gossip, Ping): {n}"));
}

/// Knowledge of one instance in the exchange scope.
fn knowledge(me: Id, other: Id, t: bool) -> Vec<(Vec<Member<Id>>, bool)> {
    let mut o3: Vec<Option<Member<Id>>> = vec![None];
    for g in 0..2 {
        for i in if t { vec![0, 1, MAX] } else { vec![0, MAX] } {
            for s in [Alive, Suspect, Down] {
                if s == Down && i != 0 && !t {
                    continue;
                }
                o3.push(Some(Member::new(id(3, g), i, s)));
            }
        }
    }
    let o4: Vec<Option<Member<Id>>> = vec![
        None,
        Some(Member::new(id(4, 0), 2, Alive)),
        Some(Member::new(id(4, 0), 0, Down)),
        Some(Member::new(id(4, 1), 0, Suspect)),
    ];
    let mutual: Vec<Option<Member<Id>>> = vec![
        None,
        Some(Member::new(other, 0, Alive)),
        Some(Member::new(other, 0, Suspect)),
        Some(Member::new(other, 3, Down)),
        Some(Member::new(
            Id {
                gen: other.gen + 1,
                ..other
            },
            0,
            Alive,
        )),
        Some(Member::new(
            Id {
                gen: other.gen - 1,
                ..other
            },
            0,
            Suspect,
        )),
    ];
    let own: Vec<Option<Member<Id>>> = vec![
        None,
        Some(Member::new(
            Id {
                gen: me.gen - 1,
                ..me
            },
            0,
            Down,
        )),
    ];
    let mut v = Vec::new();
    for a in &o3 {
        for b in &o4 {
            for c in &mutual {
                for d in &own {
                    for undead in [false, true] {
                        if undead && (d.is_some() || b.is_some()) {
                            continue;
                        }
                        // records in both orders of insertion
                        let ms: Vec<Member<Id>> =
                            [a, b, c, d].into_iter().flatten().cloned().collect();
                        v.push((ms, undead));
                    }
                }
            }
        }
    }
    v
}
fn exchange(r: &mut Report) {
    let t = r.thorough();
    for kind in if t {
        vec![K_RENEW, K_NONE, K_SAME, K_LOSE]
    } else {
        vec![K_RENEW, K_NONE]
    } {
        let a = idk(1, 3, kind);
        let b = idk(2, 3, kind);
        let mk = |me: Id, k: &(Vec<Member<Id>>, bool)| {
            let mut c = cfg();
            c.notify_down_members = true;
            let mut s = Sut::new(&Init::new(me, c));
            with_rng(1, &[], || s.exec(&Call::Apply(k.0.clone(), false)));
            if k.1 {
                with_rng(1, &[], || s.exec(&Call::Leave));
            }
            s
        };
        let (mut ka, mut kb) = (knowledge(a, b, t), knowledge(b, a, t));
        if cfg!(not(foca_verif)) {
            ka = ka.into_iter().step_by(11).collect();
            kb = kb.into_iter().step_by(7).collect();
            r.exhaustive = false;
        }
        let mut n = 0u64;
        let sb: Vec<Sut> = kb.iter().map(|k| mk(b, k)).collect();
        let jobs: Vec<usize> = (0..ka.len()).collect();
        r.jobs(
            &jobs,
            |i| {
                let sa = mk(a, &ka[*i]);
                let sb = &sb;
                let oa = sa.obs();
                let mut evals = 0;
                for (j, sb) in sb.iter().enumerate() {
                    let ob = sb.obs();
                    for mode in 0..3 {
                        let (mut x, mut y) = (sa.clone(), sb.clone());
                        let (r1, r2) = match mode {
                            // both snapshots taken before anything is applied
                            0 => (
                                with_rng(1, &[], || x.exec(&Call::Apply(ob.all.clone(), true))),
                                with_rng(1, &[], || y.exec(&Call::Apply(oa.all.clone(), true))),
                            ),
                            // one after the other
                            1 => {
                                let r1 = with_rng(1, &[], || x.exec(&Call::Apply(ob.all.clone(), false)));
                                let all = x.obs().all;
                                (r1, with_rng(1, &[], || y.exec(&Call::Apply(all, false))))
                            }
                            // the other way around, most recent record first
                            _ => {
                                let mut all = oa.all.clone();
                                all.reverse();
                                let r2 = with_rng(1, &[], || y.exec(&Call::Apply(all, true)));
                                let mut all = y.obs().all;
                                all.reverse();
                                (with_rng(1, &[], || x.exec(&Call::Apply(all, true))), r2)
                            }
                        };
                        evals += 1;
                        let how = || {
                            format!(
                                "{a:?} knows {:?}, {b:?} knows {:?}, exchange mode {mode}: {:?} {:?}",
                                oa.all.iter().map(fmt_m).collect::<Vec<_>>(),
                                ob.all.iter().map(fmt_m).collect::<Vec<_>>(),
                                r1.res,
                                r2.res
                            )
                        };
                        for q in [&r1.res, &r2.res] {
                            if let Res::Panic(p) = q {
                                return Err((Viol { sig: "panic".into(), msg: p.clone() }, how()));
                            }
                        }
                        let vx = view(&x.obs()).map_err(|e| (e, how()))?;
                        let vy = view(&y.obs()).map_err(|e| (e, how()))?;
                        if let Some(k) = agree(&vx, &vy, &[1, 2]) {
                            return Err((
                                Viol {
                                    sig: "exchange".into(),
                                    msg: format!("after exchanging full states they disagree on address {k}: {:?} vs {:?}", vx.get(&k).map(fmt_m), vy.get(&k).map(fmt_m)),
                                },
                                how(),
                            ));
                        }
                        let mut want = view(&oa).unwrap_or_default();
                        for m in &ob.all {
                            learn(&mut want, m);
                        }
                        if let Some(k) = agree(&want, &vx, &[1, 2]) {
                            return Err((
                                Viol { sig: "exchange".into(), msg: format!("address {k}: not the join of both states: {:?}", vx.get(&k).map(fmt_m)) },
                                how(),
                            ));
                        }
                    }
                    let _ = j;
                }
                Ok(evals)
            },
            |x| n += x,
        );
        r.transitions += n;
        r.states += (ka.len() + kb.len()) as u64;
        r.count("full_state_exchanges", n);
        r.scope_line(format!(
            "exchange kind={kind}: {} x {} knowledge states, {n} exchanges",
            ka.len(),
            kb.len()
        ));
    }
}

/// Up to 247 addresses at once, a few updates about each: the same collection delivered in many
/// orders (every stride that visits all of it, both directions), in one batch, in chunks and one
/// at a time, some of it twice; then re-applied, and exchanged between two instances that got
/// different parts.
fn many_addresses(r: &mut Report) {
    let t = r.thorough();
    let pat: Vec<(u8, u16, State)> = vec![
        (0, 0, Alive),
        (0, 3, Suspect),
        (1, 0, Alive),
        (0, 3, Down),
        (1, 1, Suspect),
        (2, 0, Down),
        (0, 4, Alive),
        (1, MAX, Alive),
        (2, 1, Suspect),
        (1, 0, Down),
    ];
    // (address 9 is the sender's in `deliver`)
    let addrs: Vec<u8> = (1..=248u8).filter(|a| *a != 9).collect();
    let mut jobs = Vec::new();
    let sizes: &[usize] = if t {
        &[3, 7, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 247]
    } else {
        &[3, 7, 15, 16, 17, 31, 32, 33, 63, 65, 128, 247]
    };
    for &n in sizes {
        for per in 1..=3usize {
            for rng in 0..3u8 {
                jobs.push((n, per, rng));
            }
        }
    }
    let mut evals = 0u64;
    r.jobs(
        &jobs,
        |&(n, per, rng)| {
            let us: Vec<Member<Id>> = (0..per)
                .flat_map(|k| {
                    let pat = &pat;
                    addrs[..n].iter().enumerate().map(move |(x, a)| {
                        let (g, i, st) = pat[(x * 3 + k * 7 + x / 10) % 10];
                        Member::new(id(*a, g), i, st)
                    })
                })
                .collect();
            let mut want = View::new();
            us.iter().for_each(|u| learn(&mut want, u));
            let m = us.len();
            let script: Vec<u8> = (0..1024usize)
                .map(|i| match rng {
                    0 => 0,
                    1 => 255,
                    _ => (i * 101 + i / 7) as u8,
                })
                .collect();
            let mut strides: Vec<usize> = (1..m).filter(|s| gcd(*s, m) == 1).collect();
            let keep = if t { 40 } else { 12 };
            let by = (strides.len() / keep).max(1);
            strides = strides.into_iter().step_by(by).chain([1, m - 1]).collect();
            let mut evals = 0u64;
            let mut half = Vec::new();
            for (k, st) in strides.iter().enumerate() {
                let order: Vec<Member<Id>> = (0..m).map(|x| us[(x * st) % m].clone()).collect();
                for how_much in [m, 1, 5] {
                    let via = (k + how_much) % 4;
                    let mut s = sut();
                    let mut w = want.clone();
                    if via >= 2 {
                        learn(&mut w, &Member::alive(id(9, 0)));
                    }
                    let how = || format!("{m} updates about {n} addresses, stride {st}, {how_much} at a time, delivery {via}, rng {rng}");
                    // (what fits in a datagram of 1400 bytes)
                    let step = if via >= 2 { how_much.min(60) } else { how_much };
                    for (x, ch) in order.chunks(step).enumerate() {
                        for twice in 0..=usize::from(x % 3 == 1) {
                            let out = deliver_rng(&mut s, (via + twice) % if via >= 2 { 4 } else { 2 }, ch, &script);
                            evals += 1;
                            if !out.ok() {
                                return Err((
                                    Viol { sig: "many-result".into(), msg: format!("{:?}", out.res) },
                                    how(),
                                ));
                            }
                        }
                    }
                    expect(&s, &w, &[], &how)?;
                    reapply(&s, &s.obs()).map_err(|e| (e, how()))?;
                    if how_much == 5 {
                        // only half of it
                        let mut s = Sut::new(&Init::new(idk(if k % 2 == 0 { 251 } else { 252 }, 1, K_RENEW), cfg()));
                        let _ = deliver_rng(&mut s, 0, &order[..m.div_ceil(2)], &script);
                        half.push(s);
                    }
                }
            }
            for w in half.windows(2) {
                let (mut x, mut y) = (w[0].clone(), w[1].clone());
                let (ox, oy) = (x.obs(), y.obs());
                let _ = deliver_rng(&mut x, 0, &oy.all, &script);
                let _ = deliver_rng(&mut y, 1, &ox.all, &script);
                evals += 2;
                let how = || format!("{m} updates about {n} addresses, two instances knowing halves of it");
                let mut want = view(&ox).map_err(|e| (e, how()))?;
                oy.all.iter().for_each(|u| learn(&mut want, u));
                for s in [&x, &y] {
                    let v = view(&s.obs()).map_err(|e| (e, how()))?;
                    if let Some(k) = agree(&want, &v, &[]) {
                        return Err((
                            Viol {
                                sig: "exchange".into(),
                                msg: format!("address {k}: {:?} after the exchange, the join is {:?}", v.get(&k).map(fmt_m), want.get(&k).map(fmt_m)),
                            },
                            how(),
                        ));
                    }
                }
            }
            Ok(evals)
        },
        |x| evals += x,
    );
    r.transitions += evals;
    r.scope_line(format!("many-addresses: {} collections of updates about up to 247 addresses, {evals} deliveries", jobs.len()));
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn c01(r: &mut Report) {
    r.rule = "every transition applies one update, batch or event to the real instance and compares its whole view with the join computed by an independent specification; full-state re-application and pairwise exchange of every reached state".into();
    let t = r.thorough();
    if r.replay.is_none() {
        table(r);
        sequences(r);
        exchange(r);
        many_addresses(r);
    }
    // histories with timers, datagrams, forgetting and identity changes in between
    for (kind, name) in [(K_RENEW, "history-renewable"), (K_NONE, "history-fixed-id")] {
        let mut c = cfg();
        c.notify_down_members = true;
        c.max_transmissions = std::num::NonZeroU8::new(1).unwrap();
        c.num_indirect_probes = nz(1);
        let mut s = Sn::base(name, Init::new(idk(0, 1, kind), c), JoinMon);
        let mut ups = Vec::new();
        for i in [id(1, 0), id(1, 1)] {
            ups.push(up(i, 0, Alive));
            ups.push(up(i, 1, Suspect));
            ups.push(up(i, 1, Down));
        }
        ups.push(up(id(2, 0), 0, Suspect));
        ups.push(up(id(2, 0), 1, Alive));
        ups.push(up(id(2, 0), 0, Down));
        for u in &ups {
            s.acts.push(Act::Apply(vec![*u], true));
        }
        s.acts.push(Act::Apply(
            vec![Up(IdS::Own, Inc::Own(0), Down), ups[5], ups[6]],
            true,
        ));
        s.acts.push(Act::Apply(
            vec![
                ups[2],
                ups[0],
                ups[4],
                ups[8],
                Up(IdS::OwnNext, Inc::Abs(0), Alive),
            ],
            false,
        ));
        for (p, i) in [(id(1, 0), 0), (id(1, 0), 2), (id(1, 1), 0), (id(2, 0), 1)] {
            s.acts.push(msg(p, MsgS::Gossip).inc(i).a());
        }
        s.acts
            .push(msg(id(1, 0), MsgS::Gossip).ups(&[ups[4], ups[7]]).a());
        s.acts.push(
            msg(id(2, 0), MsgS::Gossip)
                .ups(&[ups[2], Up(IdS::Own, Inc::Own(0), Suspect)])
                .a(),
        );
        s.acts.push(
            msg(id(2, 0), MsgS::Gossip)
                .ups(&[Up(IdS::Own, Inc::Own(0), Down), ups[3]])
                .a(),
        );
        s.acts.push(
            msg(id(2, 0), MsgS::Feed)
                .inc(1)
                .ups(&[up(id(1, 1), MAX, Alive)])
                .a(),
        );
        s.acts.push(msg(id(1, 0), MsgS::TurnUndead).a());
        s.acts.push(Act::Leave);
        s.acts.push(Act::Reuse);
        s.acts.push(Act::ChangeId(IdS::OwnNext));
        s.tm = TMode::Any;
        s.m = 1;
        s.depth = if t { 7 } else { 6 };
        s.max_states = if t { 6_000_000 } else { 700_000 };
        s.explore(r);
    }
}
