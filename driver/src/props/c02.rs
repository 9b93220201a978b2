//! Exit status 0 means the complete, correct result was delivered.
use super::*;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn count(&self) -> (u64, u64) {
        (5000, 70000)
    }
    fn rule(&self) -> &'static str {
        "all commands on generated trees with previous outputs; one to three faults per run: errors (once, at random, or persistent) on any operation, full disks, broken or full standard output, failing allocations and thread creation. Non-trivial: at least one fault fired."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["fault reported", "fault survived", "disk full", "stdout error", "allocation failed", "full device as output", "several threads"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "errors of close() are not injected: the Rust standard library discards them",
            "ENOENT (but for rename and mkdir), EEXIST and EINTR are not injected as I/O errors (they are answers with a meaning of their own; EINTR is C03)",
        ]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let mut c = generate(r, ex, ALL, &GenOpt::default());
        let o = ex.reference("svdtools", &c.image, &c.proc);
        litter(r, &mut c, Some(&o));
        if c.cmd == Cmd::Html {
            // pages older than their SVD, so that all have to be made
            for (p, n) in c.image.0.iter_mut() {
                if p.starts_with(c.dir.as_ref().unwrap()) && !c.inputs.contains(p) {
                    n.mtime = T0 - 100_000_000_000_000;
                }
            }
        }
        let o = ex.reference("svdtools", &c.image, &c.proc);
        if !o.procs[0].ok() {
            return;
        }
        if let (Some(out), true) = (c.out.clone(), r.chance(1, 12)) {
            let mut d = c.clone();
            d.image.remove(&out);
            d.image.link(&out, "/dev/full");
            let mut run = plain(&d.proc);
            shake(r, &mut run.cfg);
            if !sink(scenario("C02", "full device", &d, run), ex) {
                return;
            }
        }
        for _ in 0..8 {
            let mut run = plain(&c.proc);
            shake(r, &mut run.cfg);
            if c.cmd == Cmd::Html && r.chance(1, 2) {
                run.cfg.ncpu = r.range(2, 8);
                schedule(r, &mut run.cfg);
            }
            let n = *r.pick(&[1, 1, 1, 1, 2, 3]);
            for _ in 0..n {
                match r.below(12) {
                    0..=5 => {
                        let Some(x) = pick_rec(r, &o.log, |x| !matches!(x.op, op::CLOSE | op::GETCWD | op::ERRW)) else { continue };
                        let Some(mut e) = error_for(r, x.op) else { continue };
                        if matches!(x.op, op::RENAME | op::MKDIR) && r.chance(1, 6) {
                            // the directory, or the temporary file, went away
                            e = libc::ENOENT as i64;
                        }
                        let mut f = Fault::at(FaultKind::Error, x.idx as u64, e);
                        if r.chance(1, 2) {
                            // by what it is, wherever it comes
                            f.from = 1;
                            f.to = u64::MAX;
                            f.ops = bit(x.op);
                            if !x.path.is_empty() && !x.path.starts_with('<') && r.chance(3, 4) {
                                let base = x.path.rsplit('/').next().unwrap_or("");
                                f.path = Some(base.to_string());
                            }
                            f.max = *r.pick(&[0, 1, 1, 2]);
                            f.prob = *r.pick(&[65536, 65536, 30000, 3000]);
                        }
                        run.faults.push(f);
                    }
                    6 => {
                        let k = r.range(1, o.c.ioop);
                        let mut f = Fault::at(FaultKind::DiskFull, k, *r.pick(&[0, 1, 100, 500, 2000, 8192, 40000]));
                        if r.chance(1, 2) {
                            f.from = 1;
                            f.to = 1;
                        }
                        run.faults.push(f);
                    }
                    7 | 8 => {
                        let Some(x) = pick_rec(r, &o.log, |x| x.op == op::OUT) else { continue };
                        let e = error_for(r, op::OUT).unwrap();
                        let mut f = Fault::at(FaultKind::Error, x.idx as u64, e);
                        if r.chance(2, 3) {
                            f.to = u64::MAX;
                            f.max = *r.pick(&[0, 0, 1]);
                            f.ops = bit(op::OUT);
                        }
                        run.faults.push(f);
                        if r.chance(1, 3) {
                            run.faults.push(Fault::at(FaultKind::Short, x.idx as u64, 1 + r.below(40) as i64));
                        }
                    }
                    9 => {
                        let k = r.range(1, o.c.allocs.max(1));
                        run.cfg.alloc_fail_from = k;
                        run.cfg.alloc_fail_to = *r.pick(&[k, k, k + 2, u64::MAX - 1]);
                    }
                    10 => {
                        // any operation, now and then
                        let mask = *r.pick(&[bit(op::WRITE), bit(op::READ), bit(op::OPEN), bit(op::STAT) | bit(op::REALPATH), bit(op::RENAME) | bit(op::MKDIR) | bit(op::COPY)]);
                        let e = error_for(r, mask.trailing_zeros()).unwrap();
                        run.faults.push(Fault::any(FaultKind::Error, mask, *r.pick(&[200, 2000, 15000]), e));
                    }
                    _ => {
                        if run.cfg.ncpu > 1 {
                            run.cfg.thread_fail_from = r.range(1, run.cfg.ncpu);
                            run.cfg.thread_fail_to = run.cfg.thread_fail_from + r.below(3);
                        } else {
                            run.faults.push(Fault::any(FaultKind::Short, bit(op::WRITE) | bit(op::OUT) | bit(op::COPY), 10000, 0));
                        }
                    }
                }
            }
            if !sink(scenario("C02", "faults", &c, run), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let o = ex.go(&s.bin, &s.image, run);
        if o.c.threads_failed + o.c.alloc_failed > 0 && o.c.alloc_failed > 0 {
            ex.stats.probe("allocation failed");
        }
        if o.verdict != Verdict::Ok {
            return Ok(());
        }
        for f in o.fired.iter().take(20) {
            match run.faults[f.fault as usize].kind {
                FaultKind::DiskFull => ex.stats.probe("disk full"),
                FaultKind::Error if o.log.iter().any(|x| x.idx as u64 == f.op && x.op == op::OUT) => ex.stats.probe("stdout error"),
                _ => {}
            }
        }
        if o.c.preempt > 0 {
            ex.stats.probe("several threads");
        }
        if s.shape == "full device" {
            ex.stats.probe("full device as output");
            if o.procs[0].ok() && o.log.iter().any(|x| x.op == op::WRITE && x.err == libc::ENOSPC) {
                return violation("unreported", format!("{}: exit 0, but the output device is full", run.procs[0].argv.join(" ")));
            }
            let r = ex.reference(&s.bin, &{
                let mut i = s.image.clone();
                for p in s.fact("out") {
                    i.remove(p);
                }
                i
            }, &run.procs[0]);
            let lost = r.procs[0].ok() && s.fact("out").iter().any(|p| r.files.get(p).map_or(false, |e| !e.node.data.bytes().is_empty()));
            if o.procs[0].ok() && lost {
                return violation("unreported", format!("{}: exit 0, but nothing was delivered to the full device", run.procs[0].argv.join(" ")));
            }
            return Ok(());
        }
        if !o.procs[0].ok() {
            ex.stats.probe("fault reported");
            return Ok(());
        }
        if !o.fired.is_empty() || o.c.alloc_failed + o.c.threads_failed > 0 {
            ex.stats.probe("fault survived");
        }
        let r = ex.reference(&s.bin, &s.image, &run.procs[0]);
        if !r.procs[0].ok() {
            return Ok(());
        }
        let (got, want) = (delivered(s, &o), delivered(s, &r));
        let tell = |v: Violation| Violation {
            class: format!("unreported {}", v.class),
            detail: format!("{}: exit 0 although {}; faults: {}", run.procs[0].argv.join(" "), v.detail, faults(run, &o)),
        };
        if got.stdout != want.stdout {
            return Err(tell(Violation { class: "stdout".into(), detail: format!("standard output is not complete: {}", first_diff(&got.stdout, &want.stdout)) }));
        }
        same_files(&got, &want, false).map_err(tell)
    }
}

/// The faults that struck, in words.
pub fn faults(run: &RunSpec, o: &Outcome) -> String {
    let mut v: Vec<String> = o
        .fired
        .iter()
        .take(6)
        .map(|f| {
            let k = run.faults[f.fault as usize].kind;
            let on = o.log.iter().find(|x| x.idx as u64 == f.op);
            let e = if k == FaultKind::Error { format!(" {}", errno(f.arg)) } else { String::new() };
            format!("{k:?}{e} at operation {}{}", f.op, on.map_or(String::new(), |x| format!(" ({} {})", op::NAMES[x.op as usize], x.path)))
        })
        .collect();
    if o.fired.len() > 6 {
        v.push(format!("... {} in all", o.fired.len()));
    }
    if o.c.alloc_failed > 0 {
        v.push(format!("allocation {} failed", run.cfg.alloc_fail_from));
    }
    if o.c.threads_failed > 0 {
        v.push(format!("creation of thread {} failed", run.cfg.thread_fail_from));
    }
    v.join(", ")
}
