//! Killed or failed html runs leave whole pages, and the next run repairs all.
use super::*;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn count(&self) -> (u64, u64) {
        (1100, 15400)
    }
    fn rule(&self) -> &'static str {
        "html over a directory made from older versions of 1 to 4 devices (or an empty one), killed before, after or in the middle of any operation, at an allocation that fails, or hit by errors and full disks, with 1 to 4 threads; then a second, undisturbed run. Non-trivial: the first run did not finish."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["killed", "killed in the middle of a write", "failed", "repaired", "old page kept", "new page present"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let mut c = generate(r, ex, &[Cmd::Html], &GenOpt { light: true, ..Default::default() });
        if c.inputs.is_empty() {
            return;
        }
        let keep = c.inputs.len().min(4);
        for p in c.inputs.drain(keep..) {
            c.image.remove(&p);
        }
        let dir = c.dir.clone().unwrap();
        // a first generation of pages, then edits
        if r.chance(4, 5) {
            let mut cfg = Cfg::default();
            cfg.wall0 = WALL0 - 1_000_000_000_000;
            let o = ex.reference_at("svdtools", &c.image, &c.proc, cfg);
            if !o.procs[0].ok() {
                return;
            }
            c.image = o.image();
            for (k, p) in c.inputs.clone().iter().enumerate() {
                if r.chance(3, 4) {
                    let new = if r.chance(1, 2) {
                        let n = c.devs[k].name.clone();
                        variant(r, &c.devs[k], &n).xml().into_bytes()
                    } else {
                        edit_text(r, c.image.get(p).unwrap())
                    };
                    c.image.put(p, new, WALL0 as i64 - r.range(0, 400_000_000_000) as i64);
                }
            }
        }
        let o = ex.reference("svdtools", &c.image, &c.proc);
        if !o.procs[0].ok() {
            return;
        }
        for _ in 0..10 {
            let mut run = plain(&c.proc);
            shake(r, &mut run.cfg);
            run.cfg.gran = 1;
            run.cfg.jitter = 0;
            run.cfg.pid_base = r.range(300, 303);
            if r.chance(1, 3) {
                run.cfg.ncpu = r.range(2, 4);
                schedule(r, &mut run.cfg);
            }
            let inside = |x: &Rec| x.path.starts_with(&dir);
            match r.below(8) {
                0..=3 => {
                    let any = r.chance(1, 6);
                    let Some(x) = pick_rec(r, &o.log, |x| any || inside(x)) else { continue };
                    let k = *r.pick(&[FaultKind::KillBefore, FaultKind::KillAfter, FaultKind::KillMid, FaultKind::KillMid]);
                    run.faults.push(Fault::at(k, x.idx as u64, *r.pick(&[-1, 0, 1, 5])));
                }
                4 => {
                    let x = r.range(1, o.c.ioop);
                    run.faults.push(Fault::at(*r.pick(&[FaultKind::KillBefore, FaultKind::KillMid]), x, -1));
                }
                5 | 6 => {
                    let Some(x) = pick_rec(r, &o.log, |x| inside(x) && error_for(&mut rng_of(1), x.op).is_some()) else { continue };
                    let e = error_for(r, x.op).unwrap();
                    let mut f = Fault::at(FaultKind::Error, x.idx as u64, e);
                    if r.chance(1, 3) {
                        f.to = u64::MAX;
                        f.max = 0;
                        f.ops = *r.pick(&[bit(x.op), bit(op::RENAME) | bit(op::UNLINK), bit(op::WRITE) | bit(op::COPY) | bit(op::RENAME)]);
                    }
                    run.faults.push(f);
                }
                _ => {
                    if r.chance(1, 2) {
                        let k = r.range(1, o.c.ioop);
                        run.faults.push(Fault::at(FaultKind::DiskFull, k, *r.pick(&[0, 10, 700, 5000])));
                    } else {
                        run.cfg.alloc_fail_from = r.range(o.c.allocs / 4, o.c.allocs.max(1));
                        run.cfg.alloc_fail_to = u64::MAX - 1;
                    }
                }
            }
            let mut s = scenario("C06", "crash", &c, run);
            s.steps.push(Step::Advance { ns: *r.pick(&[0, 1_000_000, 1_000_000_000, 100_000_000_000]) });
            let mut again = plain(&c.proc);
            again.cfg.pid_base = r.range(300, 303);
            again.cfg.ncpu = *r.pick(&[1, 1, 3]);
            again.cfg.sched_mode = 1;
            again.cfg.sched_p = 2000;
            s.steps.push(Step::Run(again));
            if !sink(s, ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let mut h = Hist::new(&s.image, 1);
        let (dir, ins) = html_args(&s.image, &s.run().procs[0]);
        let fresh = fresh_html(&s.image, &dir, &ins);
        let r = ex.reference(&s.bin, &fresh, &s.run().procs[0]);
        if !r.procs[0].ok() {
            return Ok(());
        }
        let want = files_of(&[], &[dir.clone()], &r);
        // pages that are due: the others may stay as they are
        let mut due = BTreeSet::new();
        for i in uniq(&ins) {
            let Some(x) = one(ex, &s.image, &dir, &i) else { return Ok(()) };
            let old = s.image.0.get(&x.page).map_or(i64::MIN, |n| n.mtime.div_euclid(1_000_000_000));
            let svd = s.image.0[&i].mtime.div_euclid(1_000_000_000);
            if old > svd && s.image.get(&x.page) != Some(x.page_data.bytes()) {
                return Ok(()); // C05: nothing promised
            }
            due.insert(x.page);
            due.extend(x.copy.map(|c| c.0));
        }
        let index = format!("{dir}/index.html");
        let mut after: Vec<BTreeMap<String, Blob>> = vec![];
        let mut good = 0;
        for (n, st) in s.steps.iter().enumerate() {
            let Step::Run(run) = st else {
                h.apply(st);
                continue;
            };
            let o = h.run(ex, &s.bin, run);
            if o.verdict != Verdict::Ok {
                return if run.faults.is_empty() && run.cfg.alloc_fail_from == u64::MAX { stuck(run, &o) } else { Ok(()) };
            }
            let p = &o.procs[0];
            let bad = |class: &str, d: String| violation(class, format!("step {n}, {}: {}, {}: {d}", run.procs[0].argv.join(" "), p.show(), c02::faults(run, &o)));
            if p.signal() == Some(libc::SIGKILL) {
                ex.stats.probe("killed");
                if o.fired.iter().any(|f| run.faults[f.fault as usize].kind == FaultKind::KillMid && o.log.last().map_or(false, |x| x.op == op::WRITE)) {
                    ex.stats.probe("killed in the middle of a write");
                }
            } else if !p.ok() {
                ex.stats.probe("failed");
            }
            let now = files_of(&[], &[dir.clone()], &o);
            for (f, d) in &now {
                if ins.contains(f) {
                    continue;
                }
                let old = s.image.get(f) == Some(d.bytes());
                let new = want.get(f) == Some(d);
                if old && !new {
                    ex.stats.probe("old page kept");
                }
                if new && !old {
                    ex.stats.probe("new page present");
                }
                if !old && !new {
                    return bad("torn", format!("{f} is neither the old nor the new version ({} bytes): {}", d.bytes().len(), clip(d.bytes())));
                }
            }
            for (f, _) in s.image.under(&dir) {
                let f = format!("{dir}/{f}");
                if s.image.get(&f).is_some() && !h.image.0.contains_key(&f) && !f[dir.len() + 1..].starts_with('.') {
                    return bad("lost", format!("{f} was there before and is gone"));
                }
            }
            if want.get(&index).is_some() && now.get(&index) == want.get(&index) && s.image.get(&index) != want.get(&index).map(|b| b.bytes()) {
                for f in &due {
                    if now.get(f) != want.get(f) {
                        return bad("index early", format!("the new index is there, but {f} is not the new one"));
                    }
                }
            }
            after.push(now);
            if p.ok() {
                good += 1;
            }
            let undisturbed = run.faults.is_empty() && run.cfg.alloc_fail_from == u64::MAX;
            if undisturbed {
                if !p.ok() {
                    return bad("not repaired", format!("the undisturbed run fails: {}", clip(&p.err)));
                }
                let now = after.last().unwrap();
                for (f, w) in &want {
                    if now.get(f) != Some(w) {
                        return bad("not repaired", format!("after an undisturbed run {f} {}", now.get(f).map_or("is missing".into(), |d| format!("is not up to date: {}", first_diff(d.bytes(), w.bytes())))));
                    }
                }
                ex.stats.probe("repaired");
            }
        }
        let _ = good;
        Ok(())
    }
}
