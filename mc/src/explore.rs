//! Exhaustive breadth-first exploration with state deduplication, reporting, replay artefacts.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable identification of what fails, used by the known-findings file
    pub sig: String,
    pub msg: String,
}
pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        sig: sig.into(),
        msg: msg.into(),
    })
}

/// label of a transition: action index and RNG script
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Lbl {
    pub act: u32,
    pub script: Vec<u8>,
}
pub struct Path {
    pub prev: Option<Arc<Path>>,
    pub lbl: Lbl,
}
fn unroll(p: &Option<Arc<Path>>) -> Vec<Lbl> {
    let mut v = Vec::new();
    let mut c = p.as_ref();
    while let Some(n) = c {
        v.push(n.lbl.clone());
        c = n.prev.as_ref();
    }
    v.reverse();
    v
}

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    fn init(&self) -> Vec<Self::S>;
    /// Enumerate every successor. `Ok(None)`: transition checked, nothing to extend.
    fn succ(&self, s: &Self::S, sink: &mut dyn FnMut(Lbl, Result<Option<Self::S>, Viol>));
    fn fp(&self, s: &Self::S) -> u128;
    /// human-readable account of one transition
    fn describe(&self, s: &Self::S, l: &Lbl) -> String;
    /// coarse class of a transition, counted in the evidence
    fn class(&self, _s: &Self::S, _l: &Lbl) -> &'static str {
        ""
    }
}

pub struct Limits {
    pub depth: usize,
    /// stop expanding (after completing a level) beyond this many states
    pub max_states: usize,
}

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub level: &'static str,
    pub start: Instant,
    pub wall_cap: f64,
    pub scopes: Vec<String>,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub evaluations: u64,
    pub distinct: u64,
    pub exhaustive: bool,
    pub samples: Vec<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: BTreeMap<String, u64>,
    pub viols: Vec<(Viol, String)>,
    pub known: Vec<(String, String)>,
    pub known_hit: BTreeMap<String, u64>,
    pub only: Option<String>,
    pub replay: Option<(usize, Vec<Lbl>)>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

impl Report {
    pub fn new(prop: &str, tier: &str) -> Report {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in s.lines() {
                // known: property=C01 sig=<sig> <description>
                if let Some(rest) = l.strip_prefix("known: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let sig = it.next().unwrap_or("").trim_start_matches("sig=");
                    if p == prop {
                        known.push((sig.to_string(), it.next().unwrap_or("").to_string()));
                    }
                }
            }
        }
        Report {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            level: "model_checking",
            start: Instant::now(),
            wall_cap: if tier == "quick" { 420.0 } else { 7200.0 },
            scopes: vec![],
            states: 0,
            transitions: 0,
            validated: 0,
            evaluations: 0,
            distinct: 0,
            exhaustive: true,
            samples: vec![],
            rule: String::new(),
            assumptions: vec![],
            extra: BTreeMap::new(),
            viols: vec![],
            known,
            known_hit: BTreeMap::new(),
            only: None,
            replay: None,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == "quick"
    }
    pub fn thorough(&self) -> bool {
        self.tier != "quick"
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.into()).or_default() += n;
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        let mut s: String = s.into();
        if self.samples.len() < 12 {
            if s.len() > 2500 {
                let mut e = 2500;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str(" ...");
            }
            self.samples.push(s);
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed().as_secs_f64() > self.wall_cap
    }
    pub fn failed(&self) -> bool {
        !self.viols.is_empty()
    }
    /// Record a violation (or a known finding). Returns true when it is a new violation.
    pub fn violation(&mut self, v: Viol, trace: String) -> bool {
        if self.known.iter().any(|(s, _)| *s == v.sig) {
            *self.known_hit.entry(v.sig).or_default() += 1;
            return false;
        }
        if self.viols.len() < 5 {
            eprintln!("[{}] violation {}: {}", self.prop, v.sig, v.msg);
            self.viols.push((v, trace));
        }
        true
    }
    pub fn scope_line(&mut self, s: String) {
        eprintln!(
            "[{}] {:6.1}s {}",
            self.prop,
            self.start.elapsed().as_secs_f64(),
            s
        );
        self.scopes.push(s);
    }

    /// Write evidence, print verdict lines, return the exit code.
    pub fn finish(mut self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        // what the run with debug assertions and overflow checks covered before this one
        if let Some(l) = std::env::var("MC_PRE")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
        {
            for w in l.split_whitespace() {
                for k in ["states", "transitions", "evaluations"] {
                    if let Some(n) = w.strip_prefix(k).and_then(|w| w.strip_prefix('=')) {
                        self.count(
                            &format!("with_debug_assertions_{k}"),
                            n.parse().unwrap_or(0),
                        );
                    }
                }
            }
        }
        let mut cov = String::new();
        let push = |k: &str, v: String, cov: &mut String| {
            if !cov.is_empty() {
                cov.push_str(",\n  ");
            }
            cov.push_str(&format!("{}: {}", jstr(k), v));
        };
        match self.level {
            "model_checking" => {
                push("states", self.states.to_string(), &mut cov);
                push("transitions", self.transitions.to_string(), &mut cov);
                push(
                    "traces_validated_against_impl",
                    self.validated.to_string(),
                    &mut cov,
                );
            }
            _ => {
                push("evaluations", self.evaluations.to_string(), &mut cov);
                push("distinct_nontrivial", self.distinct.to_string(), &mut cov);
                if self.states > 0 {
                    push("states", self.states.to_string(), &mut cov);
                    push("transitions", self.transitions.to_string(), &mut cov);
                }
            }
        }
        if self.rule.is_empty() {
            self.rule = "every transition is a call into the real crate".into();
        }
        push("rule", jstr(&self.rule), &mut cov);
        if self.samples.is_empty() {
            self.samples.push("(no sample recorded)".into());
        }
        push("samples", jarr(&self.samples), &mut cov);
        push("scopes", jarr(&self.scopes), &mut cov);
        push("exhaustive", self.exhaustive.to_string(), &mut cov);
        for (k, v) in &self.extra {
            push(k, v.to_string(), &mut cov);
        }
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            jstr(&self.prop),
            jstr(&self.tier),
            self.seed,
            jstr(self.level),
            cov,
            jarr(&self.assumptions),
            wall,
            self.viols.len()
        );
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), ev);
        for (sig, n) in &self.known_hit {
            let d = self
                .known
                .iter()
                .find(|(s, _)| s == sig)
                .map(|(_, d)| d.clone());
            println!(
                "KNOWN-FINDING: property={} {} [{}] ({} occurrences)",
                self.prop,
                d.unwrap_or_default(),
                sig,
                n
            );
        }
        if self.viols.is_empty() {
            println!(
                "OK property={} tier={} states={} transitions={} evaluations={} wall={:.1}s",
                self.prop, self.tier, self.states, self.transitions, self.evaluations, wall
            );
            return 0;
        }
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (v, t)) in self.viols.iter().enumerate() {
            let p = rdir.join(format!("{}-{}-{}.txt", self.prop, self.tier, i));
            let _ = std::fs::write(
                &p,
                format!(
                    "property: {}\nsignature: {}\nwhat: {}\n{}\n",
                    self.prop, v.sig, v.msg, t
                ),
            );
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            println!("  {}: {}", v.sig, v.msg);
        }
        1
    }

    fn skip(&self, name: &str) -> bool {
        self.only.as_ref().is_some_and(|o| o != name)
    }
    fn replay_one<M: Model>(&self, m: &M) -> bool {
        let Some((i, lbls)) = self.replay.clone() else {
            return false;
        };
        let mut trace = String::new();
        let v = retrace(m, i, &lbls, &mut trace);
        println!("{trace}");
        match v {
            Some(v) => println!("REPRODUCED {}: {}", v.sig, v.msg),
            None => println!("NOT REPRODUCED"),
        }
        true
    }
    pub fn bfs<M: Model>(&mut self, name: &str, m: &M, lim: Limits) {
        if self.skip(name) || self.replay_one(m) {
            return;
        }
        if self.failed() || self.out_of_time() {
            self.exhaustive = false;
            return;
        }
        let o = bfs_core(
            name,
            m,
            lim,
            nthreads(),
            self.start,
            self.wall_cap,
            &self.known,
        );
        self.absorb(o);
    }
    /// Many small explorations, one thread each.
    pub fn bfs_many<M: Model>(&mut self, models: &[(String, M, Limits)]) {
        let sel: Vec<&(String, M, Limits)> = models.iter().filter(|m| !self.skip(&m.0)).collect();
        if let Some(m) = sel.first() {
            if self.replay_one(&m.1) {
                return;
            }
        }
        if self.failed() || self.out_of_time() {
            self.exhaustive = false;
            return;
        }
        let next = AtomicUsize::new(0);
        let bad = AtomicBool::new(false);
        let outs: Mutex<Vec<(usize, BfsOut)>> = Mutex::new(Vec::new());
        let (start, cap, known) = (self.start, self.wall_cap, &self.known);
        std::thread::scope(|sc| {
            for _ in 0..nthreads() {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= sel.len() || bad.load(Ordering::Relaxed) {
                        break;
                    }
                    let (name, m, lim) = sel[i];
                    let o = bfs_core(
                        name,
                        m,
                        Limits {
                            depth: lim.depth,
                            max_states: lim.max_states,
                        },
                        1,
                        start,
                        cap,
                        known,
                    );
                    if !o.viols.is_empty() {
                        bad.store(true, Ordering::Relaxed);
                    }
                    outs.lock().unwrap().push((i, o));
                });
            }
        });
        let mut outs = outs.into_inner().unwrap();
        if outs.len() < sel.len() {
            self.exhaustive = false;
        }
        outs.sort_by_key(|o| o.0);
        let many = outs.len() > 40;
        for (_, mut o) in outs {
            if many {
                // keep the evidence small
                if let Some(p) = o.line.find(" levels=") {
                    o.line.truncate(p);
                }
            }
            self.absorb(o);
        }
    }
    fn absorb(&mut self, o: BfsOut) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.validated += o.validated;
        self.exhaustive &= !o.capped;
        for (k, n) in o.known_hit {
            *self.known_hit.entry(k).or_default() += n;
        }
        if o.mismatch > 0 {
            self.count("replay_mismatch", o.mismatch);
        }
        for (v, t) in o.viols {
            if self.viols.len() < 5 {
                self.violation(v, t);
            }
        }
        if let Some(s) = o.sample {
            self.sample(s);
        }
        self.scope_line(o.line);
    }

    /// Run independent jobs in parallel; each returns Ok(counted evaluations) or a violation.
    pub fn jobs<J: Sync, R: Send>(
        &mut self,
        jobs: &[J],
        f: impl Fn(&J) -> Result<R, (Viol, String)> + Sync,
        mut fold: impl FnMut(R),
    ) {
        if self.failed() {
            return;
        }
        let next = AtomicUsize::new(0);
        let res: Mutex<Vec<(usize, Result<R, (Viol, String)>)>> = Mutex::new(Vec::new());
        let stop = AtomicBool::new(false);
        let (start, cap) = (self.start, self.wall_cap);
        std::thread::scope(|sc| {
            for _ in 0..nthreads() {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= jobs.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if start.elapsed().as_secs_f64() > cap {
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    let r = f(&jobs[i]);
                    res.lock().unwrap().push((i, r));
                });
            }
        });
        if stop.load(Ordering::Relaxed) {
            self.exhaustive = false;
            self.count("jobs_skipped_time_cap", 1);
        }
        let mut v = res.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        for (_, r) in v {
            match r {
                Ok(r) => fold(r),
                Err((v, t)) => {
                    self.violation(v, t);
                }
            }
        }
    }
}

pub struct BfsOut {
    pub line: String,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub capped: bool,
    pub viols: Vec<(Viol, String)>,
    pub known_hit: BTreeMap<String, u64>,
    pub mismatch: u64,
    pub sample: Option<String>,
}
#[allow(clippy::too_many_arguments)]
fn bfs_core<M: Model>(
    name: &str,
    m: &M,
    lim: Limits,
    threads: usize,
    start: Instant,
    wall_cap: f64,
    known: &[(String, String)],
) -> BfsOut {
    let t0 = Instant::now();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut out_viols: Vec<(Viol, String)> = Vec::new();
    let mut mismatch = 0u64;
    let mut sample = None;
    let shards: Vec<Mutex<HashSet<u128>>> = (0..256).map(|_| Mutex::new(HashSet::new())).collect();
    let transitions = AtomicU64::new(0);
    let mut frontier: Vec<(M::S, usize, Option<Arc<Path>>)> = Vec::new();
    let mut states = 0usize;
    for (i, s) in m.init().into_iter().enumerate() {
        let fp = m.fp(&s);
        if shards[(fp & 255) as usize].lock().unwrap().insert(fp) {
            states += 1;
            frontier.push((s, i, None));
        }
    }
    let classes: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let mut depth = 0;
    let mut closed = false;
    let mut capped = false;
    let mut last_level: Vec<(usize, Option<Arc<Path>>, u128)> = Vec::new();
    let viols: Mutex<Vec<(Vec<Lbl>, usize, Viol)>> = Mutex::new(Vec::new());
    let mut levels = vec![states];
    while depth < lim.depth {
        if frontier.is_empty() {
            closed = true;
            break;
        }
        if states > lim.max_states || (start.elapsed().as_secs_f64() > wall_cap) {
            capped = true;
            break;
        }
        let next_i = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let out: Mutex<Vec<(M::S, usize, Option<Arc<Path>>)>> = Mutex::new(Vec::new());
        let last_round = depth + 1 == lim.depth;
        let deadline = wall_cap;
        let work = || {
            let mut local = Vec::new();
            let mut ltrans = 0u64;
            let mut lclass: BTreeMap<&'static str, u64> = BTreeMap::new();
            loop {
                let i = next_i.fetch_add(1, Ordering::Relaxed);
                if i >= frontier.len() || stop.load(Ordering::Relaxed) {
                    break;
                }
                if i % 64 == 0 && start.elapsed().as_secs_f64() > deadline {
                    stop.store(true, Ordering::Relaxed);
                }
                let (s, ii, path) = &frontier[i];
                m.succ(s, &mut |lbl, r| {
                    ltrans += 1;
                    *lclass.entry(m.class(s, &lbl)).or_default() += 1;
                    match r {
                        Ok(None) => {}
                        Ok(Some(n)) => {
                            let fp = m.fp(&n);
                            if shards[(fp & 255) as usize].lock().unwrap().insert(fp) {
                                let p = Some(Arc::new(Path {
                                    prev: path.clone(),
                                    lbl,
                                }));
                                local.push((n, *ii, p));
                            }
                        }
                        Err(v) => {
                            let mut ls = unroll(path);
                            ls.push(lbl);
                            let mut g = viols.lock().unwrap();
                            if g.len() < 2000 {
                                g.push((ls, *ii, v));
                            }
                        }
                    }
                });
            }
            transitions.fetch_add(ltrans, Ordering::Relaxed);
            let mut c = classes.lock().unwrap();
            for (k, v) in lclass {
                *c.entry(k).or_default() += v;
            }
            drop(c);
            let mut o = out.lock().unwrap();
            o.append(&mut local);
        };
        let threads = if frontier.len() < 48 { 1 } else { threads };
        if threads <= 1 {
            work();
        } else {
            std::thread::scope(|sc| {
                for _ in 0..threads {
                    sc.spawn(&work);
                }
            });
        }
        let next = out.into_inner().unwrap();
        states += next.len();
        levels.push(next.len());
        depth += 1;
        if stop.load(Ordering::Relaxed) {
            capped = true;
        }
        // validate by replay from scratch later
        for (s, i, p) in next.iter().take(if last_round {
            200
        } else if depth > 40 {
            2
        } else {
            20
        }) {
            last_level.push((*i, p.clone(), m.fp(s)));
        }
        frontier = next;
        let mut vs = std::mem::take(&mut *viols.lock().unwrap());
        vs.sort_by(|a, b| (a.0.len(), &a.1, &a.0).cmp(&(b.0.len(), &b.1, &b.0)));
        let mut fatal = false;
        let mut seen_sig: HashSet<String> = HashSet::new();
        for (ls, i, v) in vs {
            if known.iter().any(|(s, _)| *s == v.sig) {
                *known_hit.entry(v.sig).or_default() += 1;
                continue;
            }
            fatal = true;
            if !seen_sig.insert(v.sig.clone()) || out_viols.len() >= 5 {
                continue;
            }
            let mut trace = format!("scope: {name}\ninit: {i}\nlabels: {}\n", fmt_lbls(&ls));
            let again = retrace(m, i, &ls, &mut trace);
            if again.is_none() {
                trace.push_str("(replay from scratch did not reproduce)\n");
            }
            out_viols.push((v, trace));
        }
        if fatal || capped {
            break;
        }
    }
    if frontier.is_empty() {
        closed = true;
    }
    // replays from scratch: the forked + deduplicated exploration agrees with plain execution
    let mut validated = 0;
    if out_viols.is_empty() {
        let budget = (20_000 / depth.max(1)).clamp(5, 300);
        for (i, p, fp) in last_level.iter().rev().take(budget) {
            let ls = unroll(p);
            match state_after(m, *i, &ls) {
                Some(s) if m.fp(&s) == *fp => validated += 1,
                other => {
                    // reported, not a verdict on foca
                    if std::env::var("MC_DEBUG").is_ok() {
                        eprintln!(
                            "replay mismatch: found={} {}",
                            other.is_some(),
                            fmt_lbls(&ls)
                        );
                    }
                    mismatch += 1;
                }
            }
        }
        if let Some((i, p, _)) = last_level.last() {
            let mut t = format!("scope {name}, path of length {}: ", unroll(p).len());
            let mut tr = String::new();
            retrace(m, *i, &unroll(p), &mut tr);
            t.push_str(&tr.replace('\n', " | "));
            sample = Some(t);
        }
    }
    let tr = transitions.load(Ordering::Relaxed);
    let cl = classes.into_inner().unwrap();
    let line = format!(
            "{name}: states={states} transitions={tr} depth={depth} {} validated={validated} levels={levels:?} classes={cl:?} {:.1}s",
            if closed {
                "CLOSED (all reachable states)"
            } else if capped {
                "CAPPED (state/time cap; completed levels only)"
            } else {
                "exhaustive to depth"
            },
            t0.elapsed().as_secs_f64()
        );
    BfsOut {
        line,
        states: states as u64,
        transitions: tr,
        validated,
        capped,
        viols: out_viols,
        known_hit,
        mismatch,
        sample,
    }
}
pub fn nthreads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
}
pub fn fmt_lbls(ls: &[Lbl]) -> String {
    ls.iter()
        .map(|l| {
            format!(
                "{}:{}",
                l.act,
                l.script
                    .iter()
                    .map(|x| x.to_string())
                    .collect::<Vec<_>>()
                    .join(".")
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn parse_lbls(s: &str) -> Vec<Lbl> {
    s.split_whitespace()
        .filter_map(|w| {
            let (a, b) = w.split_once(':')?;
            Some(Lbl {
                act: a.parse().ok()?,
                script: b
                    .split('.')
                    .filter(|x| !x.is_empty())
                    .filter_map(|x| x.parse().ok())
                    .collect(),
            })
        })
        .collect()
}
fn state_after<M: Model>(m: &M, init: usize, ls: &[Lbl]) -> Option<M::S> {
    let mut s = m.init().into_iter().nth(init)?;
    for l in ls {
        let mut next = None;
        m.succ(&s, &mut |lbl, r| {
            if lbl == *l {
                if let Ok(Some(n)) = r {
                    next = Some(n);
                }
            }
        });
        s = next?;
    }
    Some(s)
}
pub fn retrace<M: Model>(m: &M, init: usize, ls: &[Lbl], out: &mut String) -> Option<Viol> {
    let mut s = m.init().into_iter().nth(init)?;
    for (k, l) in ls.iter().enumerate() {
        out.push_str(&format!("[{k}] {}\n", m.describe(&s, l)));
        let mut next = None;
        let mut v = None;
        m.succ(&s, &mut |lbl, r| {
            if lbl == *l {
                match r {
                    Ok(Some(n)) => next = Some(n),
                    Ok(None) => {}
                    Err(e) => v = Some(e),
                }
            }
        });
        if let Some(v) = v {
            out.push_str(&format!("=> {}: {}\n", v.sig, v.msg));
            return Some(v);
        }
        match next {
            Some(n) => s = n,
            None => return None,
        }
    }
    None
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jarr(v: &[String]) -> String {
    format!(
        "[{}]",
        v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    )
}
