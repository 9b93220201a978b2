//! Explores a property with several workers, reports, replays.
use crate::minimise;
use crate::props::{self, Prop};
use crate::rng::{self, Rng};
use crate::sim::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
pub fn exec() -> Exec {
    let root = root();
    Exec::new(&std::env::var("VERIF_BIN").unwrap_or(format!("{root}/target/release")), &format!("{root}/build/libsim.so"))
}

/// What one run of a replayed scenario did, to compare executions exactly.
#[derive(Serialize, Deserialize, PartialEq, Eq, Clone, Debug)]
pub struct Print {
    pub exits: Vec<String>,
    pub operations: u64,
    pub switches: u64,
    pub faults: u64,
    pub simulated_ns: u64,
    /// over every system call, its result and the thread that made it
    pub history: String,
}
pub fn print_of(o: &Outcome) -> Print {
    Print {
        exits: o.procs.iter().map(|p| p.show()).collect(),
        operations: o.c.ioop,
        switches: o.c.nsw,
        faults: o.c.nfired + o.c.alloc_failed + o.c.threads_failed,
        simulated_ns: o.c.simtime,
        history: format!("{:016x}", o.c.syshash),
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub violation: String,
    pub seed: u64,
    pub case: u64,
    pub minimised: bool,
    pub scenario: Scenario,
    pub runs: Vec<Print>,
    /// faults that struck and context switches, in words
    #[serde(default)]
    pub story: Vec<String>,
}

pub fn check_keeping(p: &dyn Prop, s: &Scenario, ex: &mut Exec) -> (Check, Vec<(RunSpec, std::sync::Arc<Outcome>)>) {
    ex.keep = Some(vec![]);
    let c = p.check(s, ex);
    ex.nontrivial = false;
    (c, ex.keep.take().unwrap())
}

fn story(runs: &[(RunSpec, std::sync::Arc<Outcome>)]) -> Vec<String> {
    let mut v = vec![];
    for (k, (spec, o)) in runs.iter().enumerate() {
        for p in &spec.procs {
            v.push(format!("run {k}: {} (in {})", p.argv.join(" "), p.cwd));
        }
        let f = props::c02::faults(spec, o);
        if !f.is_empty() {
            v.push(format!("  faults: {f}"));
        }
        for s in o.switches.iter().take(40) {
            v.push(format!("  decision {}: switch to thread {}", s.decision, s.task));
        }
        let n = o.log.len();
        if n > 40 {
            v.push(format!("  ... {} operations before", n - 40));
        }
        for x in &o.log[n.saturating_sub(40)..] {
            v.push(format!(
                "  {} thread {} {} {}{} -> {}{}{}",
                x.idx,
                x.task,
                op::NAMES[x.op as usize],
                x.path,
                if x.path2.is_empty() { String::new() } else { format!(" {}", x.path2) },
                x.ret,
                if x.err != 0 { format!(" {}", errno(x.err as i64)) } else { String::new() },
                if x.faulted != 0 { " (fault)" } else { "" }
            ));
        }
        v.push(format!("  ends: {}", o.procs.iter().map(|p| p.show()).collect::<Vec<_>>().join(", ")));
    }
    v
}

pub fn threads() -> u64 {
    std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 8)
}

struct Found {
    i: u64,
    scenario: Scenario,
    violation: Violation,
}

pub fn check(id: &str, tier: &str, seed: u64, limit: Option<u64>) -> i32 {
    let start = Instant::now();
    let all = props::all();
    let Some(p) = all.iter().find(|p| p.id() == id) else { fail(&format!("no property {id}")) };
    let p: &dyn Prop = p.as_ref();
    let (quick, thorough) = p.count();
    let n = limit.unwrap_or(if tier == "thorough" { thorough } else { quick });
    let cap = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 720 } else { 330 });
    let known = known(id);
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(n);
    let broken = AtomicU64::new(u64::MAX);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let samples: Mutex<BTreeMap<u64, serde_json::Value>> = Mutex::new(BTreeMap::new());
    let seen: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let key = rng::mix(seed, rng::hash(id.as_bytes()));
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| {
                let mut ex = exec();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= stop.load(Ordering::SeqCst) || start.elapsed().as_secs() > cap {
                        break;
                    }
                    let mut r = Rng::new(rng::mix(key, i));
                    ex.selftest = i % 16 == 3;
                    let mut first = true;
                    let whole = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.explore(i, &mut r, &mut ex, &mut |s, ex| {
                        ex.stats.scenarios += 1;
                        *ex.stats.shapes.entry(s.shape.clone()).or_default() += 1;
                        if first && (i < 3 || i % 997 == 5) {
                            first = false;
                            samples.lock().unwrap().insert(i, sample(&s));
                        }
                        let c = p.check(&s, ex);
                        ex.nontrivial = false;
                        match c {
                            Ok(()) => true,
                            Err(v) => {
                                if let Some(k) = known.iter().find(|k| k.matches(&s, &v)) {
                                    *seen.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                                    return true;
                                }
                                stop.fetch_min(i, Ordering::SeqCst);
                                found.lock().unwrap().push(Found { i, scenario: s, violation: v });
                                false
                            }
                        }
                    })));
                    if whole.is_err() {
                        // a fault of the check itself: no answer, unless a violation is found elsewhere
                        broken.fetch_min(i, Ordering::SeqCst);
                        ex = { let stats = std::mem::take(&mut ex.stats); let mut e = exec(); e.stats = stats; e };
                    }
                }
                total.lock().unwrap().merge(std::mem::take(&mut ex.stats));
            });
        }
    });
    let explored = start.elapsed().as_secs_f64();
    let done = next.load(Ordering::SeqCst).min(n);
    let stats = total.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.i);
    for k in &known {
        println!("KNOWN-FINDING: property={id} {} (met {} times)", k.what, seen.lock().unwrap().get(&k.what).unwrap_or(&0));
    }
    let missing: Vec<&str> = p.probes().iter().filter(|k| !stats.probes.contains_key(**k)).copied().collect();
    let samples: Vec<_> = samples.into_inner().unwrap().into_values().take(4).collect();
    let report = |violations: u64| {
        let hours = explored / 3600.0;
        let s = &stats;
        let ev = serde_json::json!({
            "property": id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": s.scenarios,
                "distinct_nontrivial": s.nontrivial.len(),
                "rule": p.rule(),
                "samples": samples,
                "case_seeds": done,
                "simulated_runs": s.runs,
                "reference_runs": s.refs,
                "runs_per_hour": ((s.runs + s.refs) as f64 / hours).round(),
                "case_seeds_per_hour": (done as f64 / hours).round(),
                "simulated_seconds": s.simtime as f64 / 1e9,
                "simulated_io_operations": s.ops,
                "allocations_counted": s.allocs,
                "instrumented_steps_counted": s.code,
                "shared_accesses_counted": s.shared,
                "scheduling_decisions": s.decisions,
                "preemptions": s.preempt,
                "faults_injected": s.fired,
                "distinct_histories": s.histories.len(),
                "distinct_final_states": s.states.len(),
                "measure": "a history is the sequence of operations with thread, arguments and results; a final state is every path with its content; a case is counted as non-trivial by its history and final state",
                "endings": s.exits,
                "shapes": s.shapes,
                "probes": s.probes,
                "probes_not_hit": missing,
                "executions_repeated_for_determinism": s.repeated,
                "real_code": if ["C16", "C17", "C18", "C19", "C20"].contains(&id) { "the svdtools Python package with the CPython interpreter, click, PyYAML, braceexpand and lxml (libxml2, zlib)" } else if id == "C10" { "svdtools library with all its dependencies and the Rust standard library, called by a driver program" } else { "the svdtools executable with all its dependencies and the Rust standard library" },
                "stubbed": "kernel and C library behind LD_PRELOAD: file system, stdin/stdout/stderr, clocks, random numbers, process and thread ids, CPU count, threads (run one at a time, real code), futex, allocation failures; make itself in C15 (a model of its rules)",
            },
            "assumptions": p.assumptions(),
            "wall_s": start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let f = format!("{}/evidence/{id}.json", root());
        let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
        if let Err(e) = std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()) {
            fail(&format!("{f}: {e}"));
        }
    };
    println!(
        "{id} {tier} seed {seed}: {done} of {n} case seeds, {} scenarios, {} runs (+{} reference), {} distinct non-trivial, {:.1} s",
        stats.scenarios,
        stats.runs,
        stats.refs,
        stats.nontrivial.len(),
        explored
    );
    if !missing.is_empty() {
        println!("note: not met: {}", missing.join(", "));
    }
    let broken = broken.into_inner();
    if found.is_empty() {
        report(0);
        if broken != u64::MAX {
            println!("HARNESS ERROR: the check itself failed in case {broken}");
            return 3;
        }
        return 0;
    }
    report(1);
    for f in found.into_iter().take(6) {
        println!("violation in case {}: {}: {}", f.i, f.violation.class, f.violation.detail);
        if let Some(path) = write_replay(p, f, seed) {
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
    }
    3
}

fn write_replay(p: &dyn Prop, f: Found, seed: u64) -> Option<String> {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{seed}-{}.json", p.id(), f.i);
    let mut ex = exec();
    let budget = std::env::var("VERIF_MIN_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60u64);
    let mut write = |s: &Scenario, v: &Violation, minimised: bool| -> bool {
        let (c, runs) = check_keeping(p, s, &mut ex);
        let v = match c {
            Err(w) => w,
            Ok(()) => v.clone(),
        };
        let r = Replay {
            property: p.id().into(),
            class: v.class.clone(),
            violation: v.detail.clone(),
            seed,
            case: f.i,
            minimised,
            scenario: s.clone(),
            runs: runs.iter().map(|(_, o)| print_of(o)).collect(),
            story: story(&runs),
        };
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()) {
            fail(&format!("{path}: {e}"));
        }
        // in a process of its own
        let me = std::env::current_exe().unwrap();
        let ok = std::process::Command::new(me).args(["replay", &path]).stdout(std::process::Stdio::null()).status();
        ok.map_or(false, |s| s.code() == Some(1))
    };
    if !write(&f.scenario, &f.violation, false) {
        println!("HARNESS ERROR: the violation does not reproduce: {path}");
        return None;
    }
    let mut mx = exec();
    let (s, v) = minimise::minimise(p, &f.scenario, &f.violation, &mut mx, budget);
    if s != f.scenario && !write(&s, &v, true) {
        println!("note: the minimised scenario does not replay; keeping the original");
        write(&f.scenario, &f.violation, false);
    }
    Some(path)
}

pub fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => fail(&format!("{path}: {e}")),
    };
    let all = props::all();
    let Some(p) = all.iter().find(|p| p.id() == r.property) else { fail("unknown property") };
    let mut ex = exec();
    let (c, runs) = check_keeping(p.as_ref(), &r.scenario, &mut ex);
    for l in story(&runs) {
        println!("{l}");
    }
    let prints: Vec<Print> = runs.iter().map(|(_, o)| print_of(o)).collect();
    match c {
        Ok(()) => {
            println!("no violation of {}", r.property);
            0
        }
        Err(v) => {
            println!("{}: {}", v.class, v.detail);
            if v.class != r.class || v.detail != r.violation || prints != r.runs {
                println!("a violation, but not exactly the recorded one: {}: {}", r.class, r.violation);
                return 2;
            }
            println!("reproduced exactly");
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
    }
}

fn sample(s: &Scenario) -> serde_json::Value {
    let steps: Vec<serde_json::Value> = s
        .steps
        .iter()
        .take(12)
        .map(|st| match st {
            Step::Run(r) => serde_json::json!({
                "run": r.procs.iter().map(|p| p.argv.join(" ")).collect::<Vec<_>>(),
                "faults": r.faults.iter().take(4).map(|f| serde_json::json!({"kind": f.kind, "ops": f.ops, "from": f.from, "to": f.to, "arg": f.arg, "prob": f.prob, "path": f.path})).collect::<Vec<_>>(),
                "cpus": r.cfg.ncpu, "schedule": r.cfg.sched_mode, "schedule_seed": r.cfg.sched_seed,
                "failing_allocation": if r.cfg.alloc_fail_from == u64::MAX { None } else { Some(r.cfg.alloc_fail_from) },
                "preemptible_allocations": r.alloc_points.len(),
                "preemptible_instructions": r.code_points.len(),
                "preemptible_shared_accesses": r.cfg.flags & SHARED != 0,
                "same_process_ids": r.cfg.flags & SAME_PID != 0,
            }),
            Step::Write { path, data } => serde_json::json!({"write": path, "bytes": data.bytes().len()}),
            s => serde_json::to_value(s).unwrap(),
        })
        .collect();
    serde_json::json!({
        "shape": s.shape,
        "steps": steps,
        "tree": s.image.0.iter().filter(|(_, n)| n.kind != Kind::Dir).take(16).map(|(p, n)| format!("{p} ({} bytes)", n.data.bytes().len())).collect::<Vec<_>>(),
        "seed_hash": format!("{:016x}", s.hash()),
    })
}

/// A recorded genuine defect that is not repaired.
#[derive(Deserialize)]
pub struct Known {
    pub property: String,
    /// class of the violation
    pub class: String,
    /// part of the violation's description
    pub contains: Vec<String>,
    pub what: String,
}
impl Known {
    fn matches(&self, _s: &Scenario, v: &Violation) -> bool {
        self.class == v.class && self.contains.iter().all(|c| v.detail.contains(c))
    }
}
/// Lines 'known: {json}' of the known-findings file; 'fixed:' lines suppress nothing.
fn known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS", root())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .map(|l| serde_json::from_str::<Known>(l).unwrap_or_else(|e| fail(&format!("KNOWN_FINDINGS: {e}"))))
        .filter(|k| k.property == id)
        .collect()
}
