//! Concurrent svdtools processes do not disturb each other.
use super::*;
use crate::shop::*;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn count(&self) -> (u64, u64) {
        (700, 9800)
    }
    fn rule(&self) -> &'static str {
        "2 to 4 processes with 1 to 3 threads each, interleaved operation by operation by random, priority-based and starving schedules, at times with equal process ids (as in containers): different commands on shared inputs with different outputs, or html runs that share an output directory; at times one of them is killed, fails or is delayed. Non-trivial: processes were interleaved."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["separate outputs", "shared html directory", "one process killed or failing", "interleaved", "previous pages", "same process ids"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let s = shop(r, ex);
        for _ in 0..4 {
            let np = r.range(2, 4);
            let mut run = RunSpec { procs: vec![], cfg: Cfg::default(), faults: vec![], trace: vec![], alloc_points: vec![], code_points: vec![] };
            shake(r, &mut run.cfg);
            run.cfg.gran = *r.pick(&[1, 1_000_000_000]);
            run.cfg.jitter = 0;
            run.cfg.ncpu = *r.pick(&[1, 1, 2, 3]);
            schedule(r, &mut run.cfg);
            if r.chance(1, 4) {
                run.cfg.flags |= SAME_PID;
            }
            let mut img = s.image.clone();
            let mut sc;
            let cwds = ["/w", "/w/out", "/", "/home/u"];
            if r.chance(1, 2) {
                let mut outs = vec![];
                s.style.set(if r.chance(1, 2) { 0 } else { r.below(STYLES) });
                for k in 0..np {
                    let o = order(r, &s, k, 2);
                    outs.push(o.out.clone().or(o.dir.clone()).unwrap_or_default());
                    if r.chance(1, 3) {
                        if let Some(p) = &o.out {
                            img.file(p, "previous contents\n".repeat(r.below(400) as usize));
                        }
                    }
                    run.procs.push(ProcSpec { argv: o.argv, env: vec![], cwd: r.pick(&cwds).to_string() });
                }
                sc = Scenario::single("C13", "separate", &img, run).set("outs", outs);
            } else {
                let dir = r.pick(&["/w/out/site", "/w/site"]).to_string();
                let mut all: Vec<String> = s.svds.iter().map(|x| x.0.clone()).collect();
                let same = r.chance(1, 2);
                r.shuffle(&mut all);
                for _ in 0..np {
                    let mut v = all.clone();
                    if !same {
                        r.shuffle(&mut v);
                        v.truncate(r.range(1, all.len() as u64) as usize);
                    }
                    let mut a = argv("html");
                    a.push(dir.clone());
                    a.extend(v);
                    run.procs.push(ProcSpec { argv: a, env: vec![], cwd: "/w".into() });
                }
                if r.chance(1, 2) {
                    img.dir(&dir);
                }
                if r.chance(1, 3) {
                    // some pages are there already
                    let mut a = argv("html");
                    a.push(dir.clone());
                    a.extend(all.iter().take(r.range(1, all.len() as u64) as usize).cloned());
                    let o = ex.reference("svdtools", &img, &ProcSpec { argv: a, env: vec![], cwd: "/w".into() });
                    if o.procs[0].ok() {
                        img = o.image();
                        if r.chance(1, 2) {
                            let p = r.pick(&all).clone();
                            let t = edit_text(r, img.get(&p).unwrap());
                            img.put(&p, t, WALL0 as i64 + 2_000_000_000);
                        }
                        run.cfg.wall0 = WALL0 + 10_000_000_000;
                    }
                }
                sc = Scenario::single("C13", "shared directory", &img, run).set("dir", vec![dir]);
            }
            for k in 0..2 {
                let mut t = sc.clone();
                let run = t.run_mut();
                run.cfg.sched_seed = r.u64();
                run.cfg.sched_p = *r.pick(&[200, 2000, 12000, 40000]);
                run.alloc_points = alloc_points(r, 30_000);
                if k == 1 {
                    // something happens to one of them
                    let v = r.below(run.procs.len() as u64) as u32;
                    let top = *r.pick(&[30, 100, 1000]);
                    let at = r.range(1, top);
                    let kind = *r.pick(&[FaultKind::KillBefore, FaultKind::KillMid, FaultKind::KillAfter, FaultKind::Error, FaultKind::Error, FaultKind::Delay]);
                    let mut f = Fault::at(kind, at, if kind == FaultKind::Error { libc::EIO as i64 } else { 50_000_000 });
                    f.to = u64::MAX;
                    f.proc = Some(v);
                    if kind == FaultKind::Error {
                        f.ops = *r.pick(&[bit(op::READ), bit(op::OPEN), bit(op::WRITE), bit(op::OUT), bit(op::RENAME)]);
                        f.max = *r.pick(&[0, 1]);
                    }
                    run.faults.push(f);
                    t.facts.insert("victim".into(), vec![v.to_string()]);
                }
                if !sink(t, ex) {
                    return;
                }
            }
            sc.steps.clear();
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let victim: Option<usize> = s.fact("victim").first().and_then(|v| v.parse().ok());
        let o = ex.go(&s.bin, &s.image, run);
        let all = run.procs.iter().map(|p| p.argv.join(" ")).collect::<Vec<_>>().join(" || ");
        if o.verdict != Verdict::Ok {
            return violation("stuck", format!("{all}: {:?} {}", o.verdict, o.msg));
        }
        if run.procs.len() > 1 && o.c.nsw > 0 {
            ex.stats.probe("interleaved");
        }
        if run.procs.len() > 1 && run.cfg.flags & SAME_PID != 0 {
            ex.stats.probe("same process ids");
        }
        if victim.is_some() && !o.fired.is_empty() {
            ex.stats.probe("one process killed or failing");
        }
        let tell = |k: usize, v: Violation| Violation { class: v.class, detail: format!("{} beside the others: {} ({all}; {})", run.procs[k].argv.join(" "), v.detail, c02::faults(run, &o)) };
        if s.shape == "separate" {
            ex.stats.probe("separate outputs");
            for (k, p) in run.procs.iter().enumerate() {
                if victim == Some(k) {
                    continue;
                }
                let r = ex.reference(&s.bin, &s.image, p);
                let html = p.argv[1] == "html";
                let outs: Vec<String> = s.fact("outs").iter().filter(|x| p.argv.contains(x)).cloned().collect();
                let of = |o: &Outcome, x: &ProcOut| {
                    let mut files = files_of(&outs, &outs, o);
                    let mut stdout = if html { sorted_lines(&x.out) } else { x.out.clone() };
                    if html && !r.procs[0].ok() {
                        files.clear();
                        stdout.clear();
                    }
                    Delivered { exit: x.show(), stdout, files }
                };
                same(&of(&o, &o.procs[k]), &of(&r, &r.procs[0])).map_err(|v| tell(k, v))?;
            }
            return Ok(());
        }
        ex.stats.probe("shared html directory");
        let Some(dir) = s.fact("dir").first() else { return Ok(()) };
        let mut valid: BTreeMap<String, Vec<Blob>> = BTreeMap::new();
        let mut indices: Vec<Blob> = vec![];
        let mut must = BTreeSet::new();
        let index = format!("{dir}/index.html");
        for (k, p) in run.procs.iter().enumerate() {
            let (_, ins) = html_args(&s.image, p);
            let mut args = vec![];
            for i in uniq(&ins) {
                let Some(x) = one(ex, &s.image, dir, &i) else { return Ok(()) };
                // pages that are left alone stay
                let due = s.image.0.get(&x.page).map_or(true, |n| n.mtime.div_euclid(1_000_000_000) <= s.image.0[&i].mtime.div_euclid(1_000_000_000));
                if !due {
                    ex.stats.probe("previous pages");
                }
                if due && victim != Some(k) {
                    must.insert(x.page.clone());
                    must.extend(x.copy.iter().map(|c| c.0.clone()));
                }
                valid.entry(x.page).or_default().push(x.page_data);
                if let Some((p, d)) = x.copy {
                    valid.entry(p).or_default().push(d);
                }
                args.push(i);
            }
            let fresh = fresh_html(&s.image, dir, &args);
            let r = ex.reference(&s.bin, &fresh, p);
            if let Some(e) = r.files.get(&index) {
                if victim != Some(k) {
                    indices.insert(0, e.node.data.clone());
                } else {
                    indices.push(e.node.data.clone());
                }
            }
        }
        for (k, p) in o.procs.iter().enumerate() {
            if victim != Some(k) && !p.ok() {
                return violation("html fails", format!("ends with {}: {}", p.show(), clip(&p.err))).map_err(|v| tell(k, v));
            }
        }
        let pre = format!("{dir}/");
        for (p, e) in o.files.range(pre.clone()..).take_while(|(p, _)| p.starts_with(&pre)) {
            if e.node.kind != Kind::File {
                continue;
            }
            let d = &e.node.data;
            let old = s.image.get(p) == Some(d.bytes());
            if p[pre.len()..].starts_with('.') {
                if victim.is_none() && !old {
                    return violation("leftover", format!("{all}: {p} is left over"));
                }
                continue;
            }
            if *p == index {
                if !indices.contains(d) && !(old && victim.is_some()) {
                    return violation("index", format!("{all}: the index is that of no process; against the first: {}", indices.first().map_or(String::new(), |i| first_diff(d.bytes(), i.bytes()))));
                }
                continue;
            }
            match valid.get(p) {
                Some(v) if v.contains(d) => {}
                _ if old && !must.contains(p) => {}
                Some(v) => return violation("torn", format!("{all}: {p} is not whole: {}", first_diff(d.bytes(), v[0].bytes()))),
                None => return violation("extra", format!("{all}: {p} appears")),
            }
        }
        if victim.is_none() || run.procs.len() > 1 {
            if let Some(p) = must.iter().find(|p| !o.files.contains_key(*p)) {
                return violation("missing", format!("{all}: {p} is missing"));
            }
            if !o.files.contains_key(&index) {
                return violation("missing", format!("{all}: {index} is missing"));
            }
        }
        Ok(())
    }
}
