//! Worlds, scenarios and their execution.
use crate::rng;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub const T0: i64 = (WALL0 as i64) - 3_600_000_000_000; // inputs are an hour older than 'now'

impl Image {
    pub fn skeleton() -> Image {
        let mut i = Image::default();
        for d in ["/tmp", "/w", "/dev", "/home", "/home/u"] {
            i.dir(d);
        }
        i.0.insert("/dev/null".into(), Node { kind: Kind::Null, mode: 0o666, mtime: T0, data: Blob::default() });
        i.0.insert("/dev/full".into(), Node { kind: Kind::Full, mode: 0o666, mtime: T0, data: Blob::default() });
        i
    }
    pub fn dir(&mut self, p: &str) {
        if p == "/" || p.is_empty() {
            return;
        }
        if let Some(k) = p.rfind('/') {
            if k > 0 {
                let parent = p[..k].to_string();
                if !self.0.contains_key(&parent) {
                    self.dir(&parent);
                }
            }
        }
        self.0
            .entry(p.to_string())
            .or_insert(Node { kind: Kind::Dir, mode: 0o755, mtime: T0, data: Blob::default() });
    }
    pub fn put(&mut self, p: &str, data: impl Into<Blob>, mtime: i64) {
        self.dir(&p[..p.rfind('/').unwrap()]);
        let mode = self.0.get(p).map_or(0o644, |n| n.mode);
        self.0.insert(p.to_string(), Node { kind: Kind::File, mode, mtime, data: data.into() });
    }
    pub fn file(&mut self, p: &str, data: impl Into<Blob>) {
        self.put(p, data, T0)
    }
    pub fn link(&mut self, p: &str, target: &str) {
        self.dir(&p[..p.rfind('/').unwrap()]);
        self.0.insert(p.to_string(), Node { kind: Kind::Link, mode: 0o777, mtime: T0, data: target.into() });
    }
    pub fn get(&self, p: &str) -> Option<&[u8]> {
        self.0.get(p).filter(|n| n.kind == Kind::File).map(|n| n.data.bytes())
    }
    pub fn remove(&mut self, p: &str) {
        let pre = format!("{p}/");
        self.0.retain(|k, _| k != p && !k.starts_with(&pre));
    }
    pub fn under(&self, dir: &str) -> BTreeMap<String, Node> {
        let pre = format!("{dir}/");
        self.0.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, n)| (k[pre.len()..].to_string(), n.clone())).collect()
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7;
        for (p, n) in &self.0 {
            h = rng::mix(h, rng::hash(p.as_bytes()));
            h = rng::mix(h, (n.kind as u64) << 40 | n.mode as u64);
            h = rng::mix(h, n.mtime as u64);
            h = rng::mix(h, rng::hash(n.data.bytes()));
        }
        h
    }
    /// Resolve symbolic links, as realpath does; None if it does not exist.
    pub fn real(&self, p: &str) -> Option<String> {
        let mut left: Vec<String> = p.split('/').rev().filter(|c| !c.is_empty()).map(|s| s.to_string()).collect();
        let mut cur = String::new();
        let mut budget = 60;
        while let Some(c) = left.pop() {
            if c == "." {
                continue;
            }
            if c == ".." {
                cur.truncate(cur.rfind('/').unwrap_or(0));
                continue;
            }
            let next = format!("{cur}/{c}");
            match self.0.get(&next) {
                None => return None,
                Some(n) if n.kind == Kind::Link => {
                    budget -= 1;
                    if budget == 0 {
                        return None;
                    }
                    let t = String::from_utf8_lossy(n.data.bytes()).into_owned();
                    if t.starts_with('/') {
                        cur.clear();
                    }
                    left.extend(t.split('/').rev().filter(|c| !c.is_empty()).map(|s| s.to_string()));
                }
                Some(_) => cur = next,
            }
        }
        Some(if cur.is_empty() { "/".into() } else { cur })
    }
}

/// A path as the process with this working directory means it (lexically).
pub fn abs(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{cwd}/{p}") };
    let mut out: Vec<&str> = Vec::new();
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

/// How each path differs from before, not counting what simulated third parties did.
pub fn touched(before: &Image, out: &Outcome) -> BTreeMap<String, &'static str> {
    let mut t = BTreeMap::new();
    for (p, e) in &out.files {
        if e.dirty == 2 {
            continue;
        }
        match before.0.get(p) {
            None => {
                t.insert(p.clone(), "created");
            }
            Some(n) => {
                if n.kind != e.node.kind {
                    t.insert(p.clone(), "replaced");
                } else if n.kind == Kind::Dir {
                    if n.mode != e.node.mode {
                        t.insert(p.clone(), "mode changed");
                    } else if e.created || e.moved {
                        t.insert(p.clone(), "replaced");
                    } else if e.attr {
                        t.insert(p.clone(), "time stamp changed");
                    }
                } else if e.created || e.moved {
                    t.insert(p.clone(), "replaced");
                } else if n.data != e.node.data {
                    t.insert(p.clone(), "content changed");
                } else if e.dirty == 1 {
                    t.insert(p.clone(), "rewritten");
                } else if n.mode != e.node.mode {
                    t.insert(p.clone(), "mode changed");
                } else if n.mtime != e.node.mtime || (e.meta && n.kind == Kind::File) {
                    t.insert(p.clone(), "time stamp changed");
                }
            }
        }
    }
    for p in before.0.keys() {
        if !out.files.contains_key(p) {
            t.insert(p.clone(), "removed");
        }
    }
    t
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Step {
    Run(RunSpec),
    Write { path: String, data: Blob },
    Touch { path: String },
    Remove { path: String },
    Rename { from: String, to: String },
    /// time passes
    Advance { ns: u64 },
    /// the wall clock is set
    Jump { ns: i64 },
    /// something only the property's own interpreter knows
    Act { name: String, arg: String },
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    /// which oracle of the property applies
    pub shape: String,
    #[serde(default = "svdtools")]
    pub bin: String,
    pub image: Image,
    pub steps: Vec<Step>,
    /// facts about the scenario that the oracle needs
    #[serde(default)]
    pub facts: BTreeMap<String, Vec<String>>,
}
fn svdtools() -> String {
    "svdtools".into()
}
impl Scenario {
    pub fn single(prop: &str, shape: &str, image: &Image, run: RunSpec) -> Scenario {
        Scenario {
            prop: prop.into(),
            shape: shape.into(),
            bin: svdtools(),
            image: image.clone(),
            steps: vec![Step::Run(run)],
            facts: BTreeMap::new(),
        }
    }
    pub fn run(&self) -> &RunSpec {
        self.steps
            .iter()
            .find_map(|s| match s {
                Step::Run(r) => Some(r),
                _ => None,
            })
            .expect("scenario without run")
    }
    pub fn run_mut(&mut self) -> &mut RunSpec {
        self.steps
            .iter_mut()
            .find_map(|s| match s {
                Step::Run(r) => Some(r),
                _ => None,
            })
            .expect("scenario without run")
    }
    pub fn fact(&self, k: &str) -> &[String] {
        self.facts.get(k).map_or(&[], |v| v)
    }
    pub fn set(mut self, k: &str, v: Vec<String>) -> Scenario {
        self.facts.insert(k.into(), v);
        self
    }
    pub fn hash(&self) -> u64 {
        rng::hash(serde_json::to_string(self).unwrap().as_bytes())
    }
}

pub fn plain(p: &ProcSpec) -> RunSpec {
    RunSpec { procs: vec![p.clone()], cfg: Cfg::default(), faults: vec![], trace: vec![], alloc_points: vec![], code_points: vec![] }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub fn violation<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}
pub type Check = Result<(), Violation>;

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub refs: u64,
    pub scenarios: u64,
    pub simtime: u128,
    pub ops: u64,
    pub allocs: u64,
    pub code: u64,
    pub shared: u64,
    pub decisions: u64,
    pub preempt: u64,
    pub fired: BTreeMap<String, u64>,
    pub histories: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub exits: BTreeMap<String, u64>,
    pub shapes: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: BTreeSet<u64>,
    pub repeated: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.refs += o.refs;
        self.scenarios += o.scenarios;
        self.simtime += o.simtime;
        self.ops += o.ops;
        self.allocs += o.allocs;
        self.code += o.code;
        self.shared += o.shared;
        self.decisions += o.decisions;
        self.preempt += o.preempt;
        for (m, n) in [
            (&mut self.fired, o.fired),
            (&mut self.exits, o.exits),
            (&mut self.shapes, o.shapes),
            (&mut self.probes, o.probes),
        ] {
            for (k, v) in n {
                *m.entry(k).or_default() += v;
            }
        }
        self.histories.extend(o.histories);
        self.states.extend(o.states);
        self.nontrivial.extend(o.nontrivial);
        self.repeated += o.repeated;
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_default() += 1;
    }
}

#[derive(Debug)]
pub struct HarnessError(pub String);

/// Runs specifications on the simulator and remembers undisturbed runs.
pub struct Exec {
    pub dir: String, // where the binaries are
    pub sim: String,
    servers: HashMap<String, Server>,
    cache: HashMap<u64, Arc<Outcome>>,
    pub stats: Stats,
    pub nontrivial: bool,
    /// repeat executions to see that they are deterministic
    pub selftest: bool,
    /// outcome of every run of the scenario being checked, kept for the minimiser
    pub keep: Option<Vec<(RunSpec, Arc<Outcome>)>>,
}

impl Exec {
    pub fn new(dir: &str, sim: &str) -> Exec {
        Exec {
            dir: dir.into(),
            sim: sim.into(),
            servers: HashMap::new(),
            cache: HashMap::new(),
            stats: Stats::default(),
            nontrivial: false,
            selftest: false,
            keep: None,
        }
    }
    fn raw(&mut self, bin: &str, image: &Image, spec: &RunSpec) -> Outcome {
        for attempt in 0..3 {
            if !self.servers.contains_key(bin) {
                let s = match bin.strip_prefix("python") {
                    Some(k) => Server::python(k.parse().unwrap_or(0), &self.sim),
                    None => Server::new(&format!("{}/{bin}", self.dir), &self.sim),
                }
                .unwrap_or_else(|e| fail(&format!("starting {bin}: {e}")));
                self.servers.insert(bin.into(), s);
            }
            match self.servers.get_mut(bin).unwrap().run(image, spec) {
                Ok(o) => {
                    if o.verdict == Verdict::Harness {
                        fail(&format!("simulator: {}", o.msg));
                    }
                    return o;
                }
                Err(e) => {
                    self.servers.remove(bin);
                    if attempt == 2 {
                        fail(&format!("simulator died: {e}"));
                    }
                }
            }
        }
        unreachable!()
    }
    /// One simulated execution.
    pub fn go(&mut self, bin: &str, image: &Image, spec: &RunSpec) -> Arc<Outcome> {
        let t0 = std::time::Instant::now();
        let o = Arc::new(self.raw(bin, image, spec));
        if std::env::var_os("VERIF_SLOW").is_some() && t0.elapsed().as_millis() > 60 {
            eprintln!("slow: {:?} {:?} {:?} {:?} {:?}", t0.elapsed(), o.c, spec.procs[0].argv, spec.faults, spec.cfg);
        }
        if self.selftest {
            let p = self.raw(bin, image, spec);
            let same = o.verdict == p.verdict
                && o.c.syshash == p.c.syshash
                && o.c.allocs == p.c.allocs
                && o.c.code == p.c.code
                && o.c.shared == p.c.shared
                && o.c.wallclock == p.c.wallclock
                && o.switches == p.switches
                && o.fired.len() == p.fired.len()
                && o.procs.len() == p.procs.len()
                && o.procs.iter().zip(&p.procs).all(|(a, b)| a.status == b.status && a.out == b.out && a.err == b.err)
                && o.image() == p.image();
            if !same && o.verdict != Verdict::Hang {
                fail(&format!("an execution is not repeatable: {}", serde_json::to_string(spec).unwrap_or_default()));
            }
            self.stats.repeated += 1;
        }
        let s = &mut self.stats;
        s.runs += 1;
        s.simtime += o.c.simtime as u128;
        s.ops += o.c.ioop;
        s.allocs += o.c.allocs;
        s.code += o.c.code;
        s.shared += o.c.shared;
        s.decisions += o.c.decision;
        s.preempt += o.c.preempt;
        s.histories.insert(o.c.syshash);
        let mut st = 1;
        for (p, e) in &o.files {
            st = rng::mix(st, rng::hash(p.as_bytes()) ^ rng::hash(e.node.data.bytes()));
        }
        s.states.insert(st);
        if self.nontrivial || !o.fired.is_empty() || o.c.alloc_failed + o.c.threads_failed + o.c.preempt > 0 {
            s.nontrivial.insert(rng::mix(st, o.c.syshash));
        }
        let ops: HashMap<u64, u32> = if o.fired.is_empty() { HashMap::new() } else { o.log.iter().map(|r| (r.idx as u64, r.op)).collect() };
        for f in &o.fired {
            let spec = &spec.faults[f.fault as usize];
            let on = ops.get(&f.op).map_or("last", |r| op::NAMES[*r as usize]);
            let k = match spec.kind {
                FaultKind::Error => format!("error {} on {on}", errno(f.arg)),
                FaultKind::Short => format!("short transfer on {on}"),
                k => format!("{k:?} on {on}"),
            };
            *s.fired.entry(k).or_default() += 1;
        }
        for (k, n) in [
            ("allocation failure", o.c.alloc_failed),
            ("thread creation failure", o.c.threads_failed),
            ("spurious wake-up", o.c.spurious),
            ("thread preemption", o.c.preempt),
        ] {
            if n > 0 {
                *s.fired.entry(k.into()).or_default() += n;
            }
        }
        for p in &o.procs {
            *s.exits.entry(p.show()).or_default() += 1;
        }
        if let Some(k) = &mut self.keep {
            k.push((spec.clone(), o.clone()));
        }
        o
    }
    /// The undisturbed run of a command on a tree, in the plain environment.
    pub fn reference(&mut self, bin: &str, image: &Image, p: &ProcSpec) -> Arc<Outcome> {
        self.reference_at(bin, image, p, Cfg::default())
    }
    pub fn reference_at(&mut self, bin: &str, image: &Image, p: &ProcSpec, cfg: Cfg) -> Arc<Outcome> {
        let mut h = rng::mix(image.hash(), rng::hash(bin.as_bytes()));
        for a in p.argv.iter().chain(&p.env) {
            h = rng::mix(h, rng::hash(a.as_bytes()));
        }
        h = rng::mix(h, rng::hash(p.cwd.as_bytes()));
        h = rng::mix(h, rng::hash(serde_json::to_string(&cfg).unwrap().as_bytes()));
        if let Some(o) = self.cache.get(&h) {
            return o.clone();
        }
        let mut spec = plain(p);
        spec.cfg = cfg;
        let o = Arc::new(self.raw(bin, image, &spec));
        self.stats.refs += 1;
        if self.cache.len() > 400 {
            self.cache.clear();
        }
        self.cache.insert(h, o.clone());
        o
    }
}

pub fn errno(e: i64) -> String {
    match e as i32 {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EACCES => "EACCES",
        libc::EINTR => "EINTR",
        libc::EMFILE => "EMFILE",
        libc::ENOMEM => "ENOMEM",
        libc::EPIPE => "EPIPE",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::ESTALE => "ESTALE",
        libc::EPERM => "EPERM",
        libc::EXDEV => "EXDEV",
        libc::ENOSYS => "ENOSYS",
        libc::EOPNOTSUPP => "EOPNOTSUPP",
        libc::EAGAIN => "EAGAIN",
        libc::EFBIG => "EFBIG",
        libc::ENFILE => "ENFILE",
        libc::EINVAL => "EINVAL",
        libc::ELOOP => "ELOOP",
        libc::ENODEV => "ENODEV",
        libc::ETIMEDOUT => "ETIMEDOUT",
        _ => return format!("errno {e}"),
    }
    .into()
}

thread_local! {
    /// A reduced scenario is tried: what goes wrong with it is no error of the check.
    pub static TRYING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// An error of the harness itself: no verdict.
pub fn fail(m: &str) -> ! {
    if TRYING.get() {
        panic!("{m}");
    }
    println!("HARNESS ERROR: {m}");
    std::process::exit(3)
}

/// The world between the runs of a history.
pub struct Hist {
    pub image: Image,
    pub wall: i64,
    pub gran: i64,
}
impl Hist {
    pub fn new(image: &Image, gran: u64) -> Hist {
        Hist { image: image.clone(), wall: WALL0 as i64, gran: gran.max(1) as i64 }
    }
    pub fn now(&self) -> i64 {
        self.wall - self.wall.rem_euclid(self.gran)
    }
    pub fn apply(&mut self, s: &Step) {
        let now = self.now();
        match s {
            Step::Write { path, data } => {
                self.wall += 1000;
                self.image.put(path, data.clone(), now)
            }
            Step::Touch { path } => {
                if let Some(n) = self.image.0.get_mut(path) {
                    n.mtime = now;
                }
            }
            Step::Remove { path } => self.image.remove(path),
            Step::Rename { from, to } => {
                if let Some(n) = self.image.0.remove(from) {
                    self.image.dir(&to[..to.rfind('/').unwrap()]);
                    self.image.0.insert(to.clone(), n);
                }
            }
            Step::Advance { ns } => self.wall += *ns as i64,
            Step::Jump { ns } => self.wall += ns,
            _ => {}
        }
    }
    pub fn run(&mut self, ex: &mut Exec, bin: &str, spec: &RunSpec) -> Arc<Outcome> {
        let mut spec = spec.clone();
        spec.cfg.wall0 = self.wall as u64;
        spec.cfg.gran = self.gran as u64;
        let o = ex.go(bin, &self.image, &spec);
        self.wall = o.c.wallclock as i64;
        self.image = o.image();
        o
    }
}
