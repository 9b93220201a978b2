//! Output depends only on the inputs, not on what earlier runs left behind.
use super::*;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn count(&self) -> (u64, u64) {
        (7000, 98000)
    }
    fn rule(&self) -> &'static str {
        "histories of 1 to 4 runs of one command (and of variants of it with the same output), some killed or failing at random points, with edits of inputs between them and garbage where the output goes; every undisturbed run is compared with one on the same inputs without any earlier output. Non-trivial: an earlier output existed."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["earlier output longer", "earlier output shorter", "after a killed run", "after a failed run", "second run in a row", "after an edit"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let mut c = generate(r, ex, NON_HTML, &GenOpt::default());
        let o = ex.reference("svdtools", &c.image, &c.proc);
        for _ in 0..5 {
            let mut steps = vec![];
            let mut d = c.clone();
            if r.chance(2, 3) {
                litter(r, &mut d, Some(&o));
            }
            let run = |r: &mut Rng, faulty: bool, o: &Outcome| {
                let mut s = plain(&c.proc);
                shake(r, &mut s.cfg);
                if faulty {
                    any_fault(r, o, &mut s);
                }
                s
            };
            for _ in 0..r.below(4) {
                match r.below(6) {
                    0 | 1 => steps.push(Step::Run(run(r, true, &o))),
                    2 => steps.push(Step::Run(run(r, false, &o))),
                    3 => {
                        // the same output from another command line
                        let mut s = run(r, false, &o);
                        let a = &mut s.procs[0].argv;
                        match c.cmd {
                            Cmd::Patch => a.extend(["--enum-derive".into(), "none".into()]),
                            Cmd::Convert => a.push("--expand".into()),
                            Cmd::Expand => a[1] = "makedeps".into(),
                            Cmd::Makedeps => a[1] = "expand-patch".into(),
                            Cmd::Htmlcompare => {
                                let l = a.len();
                                a.swap(3, l - 1)
                            }
                            _ => {}
                        }
                        steps.push(Step::Run(s));
                    }
                    _ => {
                        if let Some(p) = c.inputs.get(r.below(c.inputs.len().max(1) as u64) as usize) {
                            let old = d.image.get(p).unwrap_or(b"").to_vec();
                            let data = match r.below(5) {
                                0 => old[..r.below(old.len() as u64 + 1) as usize].to_vec(),
                                1 => vec![],
                                _ => edit_text(r, &old),
                            };
                            steps.push(Step::Write { path: p.clone(), data: data.into() });
                            if r.chance(2, 3) {
                                steps.push(Step::Run(run(r, r.0 % 2 == 0, &o)));
                                steps.push(Step::Write { path: p.clone(), data: old.into() });
                            }
                        }
                    }
                }
            }
            let last = run(r, false, &o);
            if r.chance(1, 3) {
                steps.push(Step::Run(last.clone()));
            }
            steps.push(Step::Run(last));
            let mut s = scenario("C07", "history", &d, plain(&c.proc));
            s.steps = steps;
            if !sink(s, ex) {
                return;
            }
        }
        c.inputs.clear();
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let mut h = Hist::new(&s.image, 1);
        let (out, dir, ins) = (s.fact("out").to_vec(), s.fact("dir").to_vec(), s.fact("inputs").to_vec());
        let mut last = "";
        for (n, st) in s.steps.iter().enumerate() {
            let Step::Run(run) = st else {
                h.apply(st);
                last = "after an edit";
                continue;
            };
            let before = h.image.clone();
            let was = files_of(&out, &dir, &Outcome { files: before.0.iter().map(|(p, n)| (p.clone(), Entry { node: n.clone(), ino: 0, dirty: 0, meta: false, attr: false, created: false, moved: false })).collect(), ..empty() });
            ex.nontrivial = !was.is_empty();
            let o = h.run(ex, &s.bin, run);
            ex.nontrivial = false;
            let undisturbed = run.faults.is_empty() && run.cfg.alloc_fail_from == u64::MAX && run.cfg.thread_fail_from == u64::MAX;
            if o.verdict != Verdict::Ok {
                return if undisturbed { stuck(run, &o) } else { Ok(()) };
            }
            if !undisturbed {
                last = if o.procs[0].signal().is_some() { "after a killed run" } else { "after a failed run" };
                continue;
            }
            if !last.is_empty() {
                ex.stats.probe(last);
            }
            let r = ex.reference(&s.bin, &clean(&before, &out, &dir, &ins), &run.procs[0]);
            let (got, want) = (delivered(s, &o), delivered(s, &r));
            let tell = |v: Violation| Violation {
                class: v.class,
                detail: format!("step {n}, {}: {} (compared with a run without earlier output)", run.procs[0].argv.join(" "), v.detail),
            };
            if got.exit != want.exit {
                return violation("exit", format!("ends with {} instead of {}: {}", got.exit, want.exit, clip(&o.procs[0].err))).map_err(tell);
            }
            if got.stdout != want.stdout {
                return violation("stdout", format!("standard output: {}", first_diff(&got.stdout, &want.stdout))).map_err(tell);
            }
            if o.procs[0].ok() {
                same_files(&got, &want, dir.is_empty()).map_err(tell)?;
                for (p, w) in &want.files {
                    match was.get(p) {
                        Some(x) if x.bytes().len() > w.bytes().len() => ex.stats.probe("earlier output longer"),
                        Some(x) if x.bytes().len() < w.bytes().len() => ex.stats.probe("earlier output shorter"),
                        _ => {}
                    }
                }
                last = "second run in a row";
            } else {
                last = "after a failed run";
            }
        }
        Ok(())
    }
}

fn empty() -> Outcome {
    Outcome {
        verdict: Verdict::Ok,
        msg: String::new(),
        procs: vec![],
        c: Counters::default(),
        switches: vec![],
        fired: vec![],
        log: vec![],
        files: BTreeMap::new(),
    }
}
