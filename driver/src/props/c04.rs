//! The result of html does not depend on thread scheduling or thread count.
use super::*;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn count(&self) -> (u64, u64) {
        (1500, 21000)
    }
    fn rule(&self) -> &'static str {
        "html on 1 to 8 generated devices (some sharing device or file names, some malformed), on fresh or previously used directories, with 2 to 16 threads under random, priority-based and starving schedules, preemption at I/O, futex operations, chosen allocations, chosen branches, loads and stores of svdtools' code and every access to data that threads share, delays, spurious wake-ups and failing thread creation. Non-trivial: threads were preempted."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["preempted", "colliding names", "failing input", "previous pages"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let distinct = r.chance(2, 3);
        let mut c = generate(r, ex, &[Cmd::Html], &GenOpt { distinct, light: true, ..Default::default() });
        if c.inputs.len() < 2 && r.chance(3, 4) {
            return;
        }
        let o = ex.reference("svdtools", &c.image, &c.proc);
        let mut shape = "collide";
        if distinct && o.procs[0].ok() {
            shape = "distinct";
            if r.chance(1, 3) {
                litter(r, &mut c, Some(&o));
            }
        }
        if r.chance(1, 8) && !c.inputs.is_empty() {
            let p = r.pick(&c.inputs).clone();
            let d = c.image.get(&p).unwrap().to_vec();
            c.image.put(&p, d[..d.len() / 2].to_vec(), T0);
            shape = "failing";
        }
        let o = ex.reference("svdtools", &c.image, &c.proc);
        for _ in 0..8 {
            let mut run = plain(&c.proc);
            shake(r, &mut run.cfg);
            run.cfg.ncpu = *r.pick(&[2, 2, 3, 4, 4, 6, 8, 16]);
            schedule(r, &mut run.cfg);
            run.alloc_points = alloc_points(r, o.c.allocs);
            code_points(r, &o.c, &mut run);
            if r.chance(1, 4) {
                for _ in 0..r.range(1, 3) {
                    let k = r.range(1, o.c.ioop);
                    run.faults.push(Fault::at(FaultKind::Delay, k, r.range(1, 5_000_000_000) as i64));
                }
            }
            if r.chance(1, 6) {
                // fewer threads than wanted is no reason for another result... but rayon insists on its threads
                run.cfg.thread_fail_from = u64::MAX;
            }
            if !sink(scenario("C04", shape, &c, run), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let o = ex.go(&s.bin, &s.image, run);
        let cmd = run.procs[0].argv.join(" ");
        let bad = |class: &str, d: String| violation(class, format!("{cmd} with {} threads: {d}", run.cfg.ncpu));
        match o.verdict {
            Verdict::Ok => {}
            v => return bad("stuck", format!("does not terminate: {v:?} {}", o.msg)),
        }
        if o.c.preempt > 0 {
            ex.stats.probe("preempted");
        }
        let r = ex.reference(&s.bin, &s.image, &run.procs[0]);
        let (got, want) = (delivered(s, &o), delivered(s, &r));
        if got.exit != want.exit {
            return bad("exit", format!("ends with {} instead of {}; {}", got.exit, want.exit, clip(&o.procs[0].err)));
        }
        let (dir, ins) = html_args(&s.image, &run.procs[0]);
        if s.shape == "distinct" && r.procs[0].ok() {
            if s.image.under(&dir).len() > 0 {
                ex.stats.probe("previous pages");
            }
            return same(&got, &want).or_else(|v| bad(&v.class, v.detail));
        }
        // what each input alone gives
        let mut pages: BTreeMap<String, Vec<Blob>> = BTreeMap::new();
        let mut all = true;
        for i in uniq(&ins) {
            match one(ex, &s.image, &dir, &i) {
                Some(x) => {
                    pages.entry(x.page.clone()).or_default().push(x.page_data);
                    if let Some((p, d)) = x.copy {
                        pages.entry(p).or_default().push(d);
                    }
                }
                None => all = false,
            }
        }
        if !all {
            ex.stats.probe("failing input");
        }
        if pages.values().any(|v| v.len() > 1) {
            ex.stats.probe("colliding names");
        }
        let index = format!("{dir}/index.html");
        for (p, d) in &got.files {
            if *p == index || ins.contains(p) || s.image.get(p).map_or(false, |o| o == d.bytes()) {
                continue;
            }
            match pages.get(p) {
                Some(v) if v.contains(d) => {}
                Some(v) => return bad("mixed", format!("{p} is not a whole page or copy of any input; against the first: {}", first_diff(d.bytes(), v[0].bytes()))),
                None if all => return bad("extra", format!("{p} appears")),
                None => {}
            }
        }
        if r.procs[0].ok() && all {
            for (p, v) in &pages {
                if v.len() == 1 && p.ends_with(".html") && !got.files.contains_key(p) {
                    return bad("missing", format!("{p} is missing"));
                }
                if p.ends_with(".html") && !got.files.contains_key(p) {
                    return bad("missing", format!("{p} is missing"));
                }
            }
            if got.files.get(&index) != want.files.get(&index) {
                return bad("index", "the index differs from the one of a single thread".into());
            }
            if got.stdout.is_empty() && !want.stdout.is_empty() {
                return bad("stdout", "nothing on standard output".into());
            }
        }
        Ok(())
    }
}
