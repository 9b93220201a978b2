//! Library calls do not influence each other.
use super::*;
use crate::shop::*;

pub struct P;

type Plan = Vec<Vec<Vec<String>>>;
type Results = Vec<Vec<[String; 2]>>;

fn run_of(cfg: Cfg) -> RunSpec {
    let mut r = plain(&ProcSpec { argv: ["libdriver", "/plan.json", "/results.json"].iter().map(|s| s.to_string()).collect(), env: vec![], cwd: "/w".into() });
    r.cfg = cfg;
    r
}
fn with_plan(img: &Image, plan: &Plan) -> Image {
    let mut i = img.clone();
    i.file("/plan.json", serde_json::to_vec(plan).unwrap());
    i
}
fn outputs(o: &Outcome) -> BTreeMap<String, Blob> {
    let pre = "/w/out/";
    let at = |p: &String| p.rsplit('/').next().map_or(false, |b| b.starts_with('.'));
    o.files
        .range(pre.to_string()..)
        .take_while(|(p, _)| p.starts_with(pre))
        .filter(|(p, e)| e.node.kind == Kind::File && !at(p))
        .map(|(p, e)| (p.clone(), e.node.data.clone()))
        .collect()
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn count(&self) -> (u64, u64) {
        (1200, 16800)
    }
    fn rule(&self) -> &'static str {
        "plans of 2 to 10 calls of the public library functions on shared inputs, spread over 1 to 4 threads of one process (failing and panicking calls included, files of a thread changed between its calls), under random, priority-based and starving schedules with preemption at I/O, futex operations, chosen allocations, chosen branches, loads and stores of svdtools' code and every access to data that threads share; each call's value, files and output lines are compared with the same call alone in a process. Non-trivial: more than one call (all)."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["parallel calls", "preempted", "call after a failed call", "call after a panic", "file changed between calls", "html among the calls"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["interleavings are explored at I/O operations, lock operations and chosen allocations; data races in between are out of reach (the library is safe Rust)"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let s = shop(r, ex);
        for _ in 0..4 {
            let nt = *r.pick(&[1, 1, 2, 2, 3, 4]);
            let mut plan: Plan = vec![vec![]; nt];
            let calls = r.range(2, 8);
            let img = s.image.clone();
            let bad = *r.pick(&[0, 3, 8]);
            // threads that do similar work meet more often
            let focus = if nt > 1 && r.chance(3, 5) { Some(*r.pick(KINDS)) } else { None };
            s.style.set(if r.chance(1, 2) { 0 } else { r.below(STYLES) });
            let long = r.chance(1, 12);
            if long {
                // few calls, many times, some of them failing
                let mut pool = vec![];
                for k in 0..r.range(2, 5) {
                    let kind = if k < 2 { *r.pick(&[0, 4, 5]) } else { r.below(10) }; // html twice is not html once
                    pool.push(order_of(r, &s, k, [0, 16, 5][k.min(2) as usize], kind).call);
                }
                r.shuffle(&mut pool);
                for _ in 0..r.range(20, 150) {
                    let k = r.below(pool.len() as u64) as usize;
                    plan[k % nt].push(pool[k].clone());
                }
            }
            for k in 0..if long { 0 } else { calls } {
                let t = r.below(nt as u64) as usize;
                let kind = focus.filter(|_| r.chance(5, 6)).unwrap_or(r.below(13));
                let o = order_of(r, &s, k, bad, kind);
                plan[t].push(o.call.clone());
                if nt == 1 && r.chance(1, 4) {
                    // the file it read changes; ask again, and change it back
                    if let Some(f) = o.call.iter().skip(1).find(|a| img.get(a).is_some()).cloned() {
                        let old = String::from_utf8_lossy(img.get(&f).unwrap()).into_owned();
                        if old.as_bytes() == img.get(&f).unwrap() {
                            let new = String::from_utf8(edit_text(r, old.as_bytes())).unwrap();
                            plan[t].push(vec!["put".into(), f.clone(), new]);
                            let mut call = o.call.clone();
                            if let Some(p) = &o.out {
                                for a in call.iter_mut().filter(|a| *a == p) {
                                    *a = again(p);
                                }
                            }
                            if let Some(p) = &o.dir {
                                for a in call.iter_mut().filter(|a| *a == p) {
                                    *a = again(p);
                                }
                            }
                            plan[t].push(call);
                            if r.chance(1, 2) {
                                plan[t].push(vec!["put".into(), f, old]);
                            }
                        }
                    }
                }
            }
            plan.retain(|t| !t.is_empty());
            let p = with_plan(&img, &plan);
            let alone = ex.reference("libdriver", &p, &run_of(Cfg::default()).procs[0]);
            let total = alone.c.allocs;
            for _ in 0..3 {
                let mut cfg = Cfg::default();
                shake(r, &mut cfg);
                cfg.gran = 1;
                cfg.jitter = 0;
                cfg.ncpu = *r.pick(&[1, 2, 3]);
                schedule(r, &mut cfg);
                let mut run = run_of(cfg);
                let n = *r.pick(&[0u64, 3, 20, 100, 400, 1500]);
                let mut v: Vec<u64> = (0..n).map(|_| r.range(1, total.max(1))).collect();
                v.sort();
                v.dedup();
                run.alloc_points = v;
                code_points(r, &alone.c, &mut run);
                if r.chance(1, 3) {
                    let k = r.range(1, 400);
                    run.faults.push(Fault::at(FaultKind::Delay, k, r.range(1, 5_000_000_000) as i64));
                }
                let mut sc = Scenario::single("C10", "calls", &p, run);
                sc.bin = "libdriver".into();
                if !sink(sc, ex) {
                    return;
                }
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let Some(plan) = s.image.get("/plan.json").and_then(|b| serde_json::from_slice::<Plan>(b).ok()) else { return Ok(()) };
        ex.nontrivial = true;
        let o = ex.go(&s.bin, &s.image, s.run());
        ex.nontrivial = false;
        if o.verdict != Verdict::Ok {
            return violation("stuck", format!("the process does not end: {:?} {}; calls: {plan:?}", o.verdict, o.msg));
        }
        if plan.len() > 1 {
            ex.stats.probe("parallel calls");
        }
        if o.c.preempt > 0 {
            ex.stats.probe("preempted");
        }
        if !o.procs[0].ok() {
            // do the calls end well alone?
            return violation("process died", format!("the process ends with {}; calls: {plan:?}", o.procs[0].show()));
        }
        let got: Results = match o.files.get("/results.json").and_then(|e| serde_json::from_slice(e.node.data.bytes()).ok()) {
            Some(g) => g,
            None => return violation("no results", format!("the calls did not all return: {plan:?}")),
        };
        let files = outputs(&o);
        let mut lines: Vec<Vec<u8>> = vec![];
        let mut expected = BTreeMap::new();
        let mut base = s.image.clone();
        base.remove("/plan.json");
        for (t, calls) in plan.iter().enumerate() {
            let mut img = base.clone();
            for (k, call) in calls.iter().enumerate() {
                if call[0] == "put" {
                    let time = img.0.get(&call[1]).map_or(T0, |n| n.mtime);
                    img.put(&call[1], call[2].clone(), time);
                    ex.stats.probe("file changed between calls");
                    continue;
                }
                let alone: Plan = vec![vec![call.clone()]];
                let r = ex.reference(&s.bin, &with_plan(&img, &alone), &s.run().procs[0]);
                let want: Results = match r.files.get("/results.json").and_then(|e| serde_json::from_slice(e.node.data.bytes()).ok()) {
                    Some(w) => w,
                    None => return Ok(()), // the call ends the process, even alone: C14
                };
                let g = &got[t][k];
                let w = &want[0][0];
                if k > 0 {
                    match got[t][k - 1][0].as_str() {
                        "error" => ex.stats.probe("call after a failed call"),
                        "panic" => ex.stats.probe("call after a panic"),
                        _ => {}
                    }
                }
                if call[0] == "html" {
                    ex.stats.probe("html among the calls");
                }
                // which of several failing inputs is reported first is html's own choice
                let same_result = if call[0] == "html" && g[0] == "panic" { w[0] == "panic" } else { g == w };
                if !same_result {
                    return violation(
                        "result",
                        format!("call {k} of thread {t}, {call:?}, returns {}: {} instead of {}: {}; plan {plan:?}", g[0], clip(g[1].as_bytes()), w[0], clip(w[1].as_bytes())),
                    );
                }
                if call[0] == "html" && w[0] != "ok" {
                    continue;
                }
                lines.extend(r.procs[0].out.split(|c| *c == b'\n').map(|l| l.to_vec()));
                expected.extend(outputs(&r));
            }
        }
        for (p, w) in &expected {
            match files.get(p) {
                None => return violation("file", format!("{p} is missing; plan {plan:?}")),
                Some(g) if g != w => return violation("file", format!("{p} differs: {}; plan {plan:?}", first_diff(g.bytes(), w.bytes()))),
                _ => {}
            }
        }
        let failed_html = plan.iter().zip(&got).any(|(c, g)| c.iter().zip(g).any(|(c, g)| c[0] == "html" && g[0] != "ok"));
        if !failed_html {
            if let Some(p) = files.keys().find(|p| !expected.contains_key(*p)) {
                return violation("file", format!("{p} appears; plan {plan:?}"));
            }
            let mut have: Vec<Vec<u8>> = o.procs[0].out.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
            have.retain(|l| !l.is_empty());
            lines.retain(|l| !l.is_empty());
            have.sort();
            lines.sort();
            if have != lines {
                return violation("stdout", format!("the lines on standard output are not those of the calls; plan {plan:?}; {}", first_diff(&have.join(&b'\n'), &lines.join(&b'\n'))));
            }
        }
        Ok(())
    }
}
