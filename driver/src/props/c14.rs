//! Every run ends: no hang, deadlock, crash or runaway under any fault.
use super::*;
use crate::genpatch::relative;

pub struct P;

/// Include graphs that a user could write, cyclic ones among them.
fn tangle(r: &mut Rng) -> (Image, ProcSpec, &'static str) {
    let mut img = Image::skeleton();
    let o = crate::gensvd::Opt::small(r);
    let dev = crate::gensvd::device(r, &o, "tangle");
    let per = dev.pers[0].name.clone();
    img.file("/w/dev.svd", dev.xml());
    let chain = r.chance(1, 6);
    let deep = chain && r.chance(1, 12);
    let n = if deep { r.range(120, 4000) } else if chain { r.range(20, 120) } else { r.range(1, 6) } as usize;
    let path = |k: usize| match k % 3 {
        _ if k == 0 => "/w/root.yaml".to_string(),
        0 => format!("/w/sub/f{k}.yaml"),
        1 => format!("/w/f{k}.yaml"),
        _ => format!("/w/sub/deep/f{k}.yaml"),
    };
    let mut what = if deep { "very long chain" } else if chain { "long chain" } else { "acyclic" };
    for k in 0..n {
        let mut inc = vec![];
        if chain {
            if k + 1 < n {
                inc.push(k + 1);
            }
        } else {
            for _ in 0..r.below(4) {
                inc.push(r.below(n as u64) as usize);
            }
            if k + 1 < n && inc.is_empty() && r.chance(3, 4) {
                inc.push(k + 1);
            }
        }
        if !chain && n < 5 && r.chance(1, 12) {
            inc.push(k);
        }
        let mut t = String::new();
        if k == 0 {
            t += "_svd: dev.svd\n";
        }
        let low = !inc.is_empty() && r.chance(1, 4);
        let mut l = String::new();
        for j in &inc {
            if *j <= k {
                what = "cycle";
            }
            let mut target = path(*j);
            if r.chance(1, 5) {
                let ln = format!("/w/ln{j}.yaml");
                img.link(&ln, &target);
                target = ln;
            }
            l += &format!("{}  - {}\n", if low { "  " } else { "" }, relative(&path(k), &target));
        }
        if low {
            t += &format!("{per}:\n  _include:\n{l}");
        } else if !inc.is_empty() {
            t += &format!("_include:\n{l}");
        }
        if !low && r.chance(1, 3) {
            t += &format!("{per}:\n  _modify:\n    Q{k}:\n      description: x\n");
        }
        if t.is_empty() {
            t = "{}\n".into();
        }
        img.file(&path(k), t);
    }
    if r.chance(1, 10) {
        // a link that leads to itself
        img.link("/w/loop.yaml", "/w/loop.yaml");
        img.file("/w/root.yaml", "_svd: dev.svd\n_include:\n  - loop.yaml\n");
        what = "cycle";
    }
    let cmd = *r.pick(&["patch", "expand-patch", "makedeps"]);
    let mut a = argv(cmd);
    a.push("root.yaml".into());
    a.push("out.x".into());
    (img, ProcSpec { argv: a, env: vec![], cwd: "/w".into() }, what)
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn count(&self) -> (u64, u64) {
        (8500, 119000)
    }
    fn rule(&self) -> &'static str {
        "all commands on generated and on spoiled trees with one to three faults of any kind (persistent errors, bursts of up to 20000 interruptions, full disks, broken pipes, failing allocations and threads, delays, clock steps), 1 to 8 threads with adverse schedules and spurious wake-ups; include graphs with cycles (direct, mutual, through links, below peripherals) and chains of up to 4000 files. Bound: 200000 + 40 times the operations, 50 million + 40 times the branches, loads and stores of an undisturbed run. Non-trivial: a fault struck, threads were preempted, or the graph is a tangle."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["cycle", "long chain", "very long chain", "persistent fault", "interruptions that stop", "thread creation failed", "spurious wake-up", "allocation failed", "starved thread", "spoiled input"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        if r.chance(1, 4) {
            for _ in 0..4 {
                let (img, p, what) = tangle(r);
                let mut run = plain(&p);
                if r.chance(1, 3) {
                    shake(r, &mut run.cfg);
                }
                if !sink(Scenario::single("C14", "tangle", &img, run).set("what", vec![what.into()]), ex) {
                    return;
                }
            }
            return;
        }
        let distinct = r.chance(1, 2);
        let mut c = generate(r, ex, ALL, &GenOpt { light: true, distinct, ..Default::default() });
        let mut shape = "faults";
        if r.chance(1, 5) && !c.inputs.is_empty() {
            let k = r.below(c.inputs.len() as u64) as usize;
            let p = c.inputs[k].clone();
            let mut d = c.image.get(&p).unwrap_or(b"").to_vec();
            match r.below(3) {
                0 => d.truncate(r.below(d.len() as u64 + 1) as usize),
                1 if !d.is_empty() => {
                    for _ in 0..r.range(1, 4) {
                        let k = r.below(d.len() as u64) as usize;
                        d[k] = r.below(256) as u8;
                    }
                }
                _ => {
                    // lines in another order
                    let mut l: Vec<Vec<u8>> = d.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                    let (a, b) = (r.below(l.len().max(1) as u64) as usize, r.below(l.len().max(1) as u64) as usize);
                    if !l.is_empty() {
                        l.swap(a, b);
                    }
                    d = l.concat();
                }
            }
            c.image.file(&p, d);
            shape = "spoiled";
        }
        let o = ex.reference("svdtools", &c.image, &c.proc);
        let pid = Cfg::default().pid_base;
        let mut again = false;
        if r.chance(1, 6) {
            // a run with the same process id was killed before
            let mut run = plain(&c.proc);
            run.faults.push(Fault::at(*r.pick(&[FaultKind::KillBefore, FaultKind::KillMid, FaultKind::KillAfter]), r.range(1, o.c.ioop.max(1)), 0));
            let k = ex.go("svdtools", &c.image, &run);
            if k.procs[0].signal().is_some() {
                c.image = k.image();
                again = true;
            }
        }
        for _ in 0..6 {
            let mut run = plain(&c.proc);
            shake(r, &mut run.cfg);
            if again && r.chance(2, 3) {
                run.cfg.pid_base = pid;
            }
            if c.cmd == Cmd::Html && r.chance(3, 4) {
                run.cfg.ncpu = r.range(2, 8);
                schedule(r, &mut run.cfg);
                run.alloc_points = alloc_points(r, o.c.allocs);
                code_points(r, &o.c, &mut run);
            }
            for _ in 0..*r.pick(&[1, 1, 2, 3]) {
                if r.chance(1, 6) {
                    let m = bit(op::READ) | bit(op::WRITE) | bit(op::OUT) | bit(op::OPEN);
                    let mut f = Fault::any(FaultKind::Error, *r.pick(&[m, bit(op::READ), bit(op::WRITE), bit(op::OUT), bit(op::OPEN)]), 65536, libc::EINTR as i64);
                    f.max = *r.pick(&[10, 1000, 20_000]);
                    run.faults.push(f);
                } else if r.chance(1, 6) {
                    // an answer that code may take for one that goes away when it tries again, or tries something else
                    let Some(x) = pick_rec(r, &o.log, |x| error_for(&mut Rng::new(1), x.op).is_some()) else { continue };
                    let e = *r.pick(&[libc::ENOENT, libc::ENOENT, libc::EAGAIN, libc::EBUSY, libc::ENOTDIR, libc::ELOOP, libc::ENAMETOOLONG, libc::EINVAL, libc::ETXTBSY, libc::ENXIO, libc::EOVERFLOW, libc::ENOSYS, libc::EOPNOTSUPP, libc::EEXIST, libc::ENOTEMPTY, libc::EISDIR, libc::ETIMEDOUT]);
                    let mut f = Fault::at(FaultKind::Error, *r.pick(&[1, x.idx as u64]), e as i64);
                    f.to = u64::MAX;
                    f.ops = bit(x.op);
                    if r.chance(1, 2) {
                        f.path = Some(x.path.clone());
                    }
                    // every name taken: a search for a free one need not end
                    f.max = if e == libc::EEXIST { r.range(1, 50) as u32 } else { *r.pick(&[0, 0, 1, 3]) };
                    run.faults.push(f);
                } else {
                    any_fault(r, &o, &mut run);
                }
            }
            if !sink(scenario("C14", shape, &c, run), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let mut run = s.run().clone();
        if s.shape == "tangle" {
            run.cfg.step_cap = 60_000;
            run.cfg.alloc_cap = 4_000_000;
            run.cfg.code_cap = 200_000_000;
        } else {
            let r = ex.reference(&s.bin, &s.image, &run.procs[0]);
            if r.verdict == Verdict::Ok {
                run.cfg.step_cap = 200_000 + 40 * r.c.steps;
                run.cfg.alloc_cap = 2_000_000 + 40 * r.c.allocs;
                run.cfg.code_cap = 50_000_000 + 40 * r.c.code;
            }
        }
        ex.nontrivial = s.shape == "tangle";
        let o = ex.go(&s.bin, &s.image, &run);
        for (k, yes) in [
            ("thread creation failed", o.c.threads_failed > 0),
            ("spurious wake-up", o.c.spurious > 0),
            ("allocation failed", o.c.alloc_failed > 0),
            ("starved thread", run.cfg.sched_mode == 3 && o.c.preempt > 0),
            ("spoiled input", s.shape == "spoiled"),
        ] {
            if yes {
                ex.stats.probe(k);
            }
        }
        for w in s.fact("what") {
            ex.stats.probe(w);
        }
        for f in o.fired.iter().take(3) {
            let f = &run.faults[f.fault as usize];
            if f.kind == FaultKind::Error && f.arg == libc::EINTR as i64 {
                ex.stats.probe("interruptions that stop");
            } else if f.kind == FaultKind::Error && f.max == 0 && f.to == u64::MAX {
                ex.stats.probe("persistent fault");
            }
        }
        let cmd = run.procs[0].argv.join(" ");
        let story = c02::faults(&run, &o);
        match o.verdict {
            Verdict::Ok => {}
            Verdict::Deadlock => {
                let tracing = run.procs[0].env.iter().any(|e| e.starts_with("RUST_BACKTRACE=") && e != "RUST_BACKTRACE=0");
                let last = o.log.last().map_or(0, |l| l.op);
                let at = if tracing && o.c.alloc_failed > 0 && last == op::ERRW { " while writing a back trace with an allocation failing" } else { "" };
                return violation("deadlock", format!("{cmd}: {}{at}; {story}", o.msg));
            }
            Verdict::StepCap | Verdict::AllocCap => {
                return violation("runaway", format!("{cmd}: {:?} after {} operations and {} allocations; {story}", o.verdict, o.c.ioop, o.c.allocs))
            }
            Verdict::Hang => return violation("hang", format!("{cmd}: no operation any more; {story}")),
            Verdict::Harness => unreachable!(),
        }
        for p in &o.procs {
            match p.signal() {
                None | Some(libc::SIGKILL) => {}
                Some(libc::SIGABRT) if o.c.alloc_failed > 0 && !String::from_utf8_lossy(&p.err).contains("overflowed its stack") => {}
                Some(libc::SIGPIPE) => {}
                Some(x) => {
                    let at = site(&run, &o);
                    return violation("crash", format!("{cmd}: dies from signal {x}: {}{at}; {story}", clip(&p.err)));
                }
            }
        }
        Ok(())
    }
}

/// Where it stopped, for the known findings in the YAML encoder and the stack limit code.
fn site(run: &RunSpec, o: &Outcome) -> &'static str {
    if o.c.attr_failed > 0 {
        return " after an allocation failed in pthread_getattr_np";
    }
    let a = &run.procs[0].argv;
    let to = a.iter().position(|x| x == "--output-format").and_then(|i| a.get(i + 1));
    let file = a.get(3).map_or("", |s| s.as_str());
    let yaml = to.map_or(file.ends_with(".yml") || file.ends_with(".yaml"), |t| t == "yaml" || t == "yml");
    let inputs_read = o.log.iter().any(|l| l.op == op::READ) && !o.log.iter().any(|l| l.op == op::WRITE);
    if a.get(1).is_some_and(|c| c == "convert") && yaml && inputs_read && o.c.alloc_failed > 0 {
        " while encoding YAML with an allocation failing"
    } else {
        ""
    }
}
