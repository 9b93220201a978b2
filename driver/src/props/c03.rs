//! Short or interrupted I/O never changes the result.
use super::*;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn count(&self) -> (u64, u64) {
        (4000, 56000)
    }
    fn rule(&self) -> &'static str {
        "all commands on generated trees (files up to 200 kB); every run meets short reads, writes and copies and EINTR, singly, in bursts, at random or at every operation. Non-trivial: at least one of them happened."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["short read", "short write", "short stdout", "interrupted read", "interrupted write", "interrupted open", "short copy"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let mut c = generate(r, ex, ALL, &GenOpt::default());
        let o = ex.reference("svdtools", &c.image, &c.proc);
        if r.chance(1, 2) && c.cmd != Cmd::Html {
            litter(r, &mut c, Some(&o));
        }
        if r.chance(1, 10) && !c.inputs.is_empty() {
            // error paths must not depend on it either
            let p = r.pick(&c.inputs).clone();
            let d = c.image.get(&p).unwrap_or(b"").to_vec();
            let n = r.below(d.len() as u64 + 1) as usize;
            c.image.file(&p, d[..n].to_vec());
        }
        let o = ex.reference("svdtools", &c.image, &c.proc);
        for _ in 0..7 {
            let mut run = plain(&c.proc);
            run.cfg.fault_seed = r.u64();
            if c.cmd == Cmd::Html && r.chance(1, 4) && o.procs[0].ok() {
                run.cfg.ncpu = r.range(2, 4);
                schedule(r, &mut run.cfg);
            }
            let all = bit(op::READ) | bit(op::WRITE) | bit(op::OUT) | bit(op::COPY) | bit(op::STDIN);
            let intr = bit(op::READ) | bit(op::WRITE) | bit(op::OUT) | bit(op::OPEN);
            for _ in 0..r.range(1, 3) {
                let mask = *r.pick(&[all, all, bit(op::READ), bit(op::WRITE), bit(op::OUT), bit(op::COPY)]);
                let prob = *r.pick(&[65536, 65536, 40000, 8000]);
                match r.below(7) {
                    0 => run.faults.push(Fault::any(FaultKind::Short, mask, prob, 1)),
                    1 | 2 => run.faults.push(Fault::any(FaultKind::Short, mask, prob, *r.pick(&[0, 0, 2, 3, 7, 63, 4095, 8191]))),
                    3 | 4 => run.faults.push(Fault::any(FaultKind::Error, mask & intr, prob.min(50000), libc::EINTR as i64)),
                    5 => {
                        if let Some(x) = pick_rec(r, &o.log, |x| (bit(x.op) & intr) != 0) {
                            let mut f = Fault::at(FaultKind::Error, x.idx as u64, libc::EINTR as i64);
                            f.to = f.from + r.below(40);
                            f.ops = intr;
                            f.max = 0;
                            run.faults.push(f);
                        }
                    }
                    _ => {
                        if let Some(x) = pick_rec(r, &o.log, |x| (bit(x.op) & all) != 0 && x.ret > 1) {
                            run.faults.push(Fault::at(FaultKind::Short, x.idx as u64, r.range(1, x.ret as u64 - 1) as i64));
                        }
                    }
                }
            }
            run.faults.retain(|f| f.ops != 0 || f.from == f.to);
            if run.faults.is_empty() {
                continue;
            }
            // tiny transfers all the way through a large page take long
            let moved: i64 = o.log.iter().filter(|x| (bit(x.op) & all) != 0).map(|x| x.ret.max(0)).sum::<i64>() * if o.c.logdrop > 0 { 10 } else { 1 };
            for f in &mut run.faults {
                if f.from != f.to && (f.kind == FaultKind::Error || f.arg < 64) && moved > 20_000 && r.chance(29, 30) {
                    f.max = 6000;
                    f.from = r.below(o.c.ioop) + 1;
                }
            }
            if !sink(scenario("C03", "faults", &c, run), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let o = ex.go(&s.bin, &s.image, run);
        if o.verdict != Verdict::Ok {
            if ex.reference(&s.bin, &s.image, &run.procs[0]).verdict == Verdict::Ok {
                return stuck(run, &o);
            }
            return Ok(());
        }
        for x in o.log.iter().filter(|x| x.faulted != 0) {
            let short = x.faulted == FaultKind::Short as u8;
            let k = match (x.op, short) {
                (op::READ, true) => "short read",
                (op::WRITE, true) => "short write",
                (op::OUT, true) => "short stdout",
                (op::COPY, true) => "short copy",
                (op::READ, false) => "interrupted read",
                (op::WRITE, false) => "interrupted write",
                (op::OPEN, false) => "interrupted open",
                _ => continue,
            };
            ex.stats.probe(k);
        }
        let r = ex.reference(&s.bin, &s.image, &run.procs[0]);
        let (mut got, mut want) = (delivered(s, &o), delivered(s, &r));
        if is_html(s) && !r.procs[0].ok() && !o.procs[0].ok() {
            // which pages were made before the failure is a matter of scheduling
            (got.files, want.files) = Default::default();
            (got.stdout, want.stdout) = Default::default();
        }
        same(&got, &want).map_err(|v| Violation {
            class: v.class,
            detail: format!("{}: {}; {}", run.procs[0].argv.join(" "), v.detail, c02::faults(run, &o)),
        })
    }
}
