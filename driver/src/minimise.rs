//! Shrinks a violating scenario, keeping the class of the violation.
use crate::props::Prop;
use crate::runner::check_keeping;
use crate::sim::*;
use crate::world::*;
use std::time::{Duration, Instant};

struct M<'a> {
    p: &'a dyn Prop,
    ex: &'a mut Exec,
    best: Scenario,
    v: Violation,
    until: Instant,
}

pub fn minimise(p: &dyn Prop, s: &Scenario, v: &Violation, ex: &mut Exec, seconds: u64) -> (Scenario, Violation) {
    let mut m = M { p, ex, best: s.clone(), v: v.clone(), until: Instant::now() + Duration::from_secs(seconds) };
    for round in 0..3 {
        let before = m.best.clone();
        m.explicit();
        m.list(|s| s.steps.len(), |s, keep| filter(&mut s.steps, keep));
        m.runs();
        m.cfg();
        m.tree();
        m.text();
        m.env();
        if m.best == before || m.late() {
            break;
        }
        let _ = round;
    }
    (m.best, m.v)
}

fn filter<T>(v: &mut Vec<T>, keep: &[bool]) {
    let mut k = 0;
    v.retain(|_| {
        k += 1;
        keep[k - 1]
    });
}

impl M<'_> {
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    fn attempt(&mut self, s: Scenario) -> bool {
        let placed = s.steps.iter().all(|st| match st {
            Step::Run(r) => r.procs.iter().all(|p| p.cwd == "/" || s.image.0.get(&p.cwd).map_or(false, |n| n.kind == Kind::Dir)),
            _ => true,
        });
        if self.late() || s == self.best || !placed || !s.steps.iter().any(|x| matches!(x, Step::Run(_))) || !self.p.sane(&s) {
            return false;
        }
        // a reduced scenario may lack what the check takes for granted
        let (p, ex) = (self.p, &mut *self.ex);
        TRYING.set(true);
        let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check_keeping(p, &s, ex).0));
        TRYING.set(false);
        match c {
            Ok(Err(v)) if v.class == self.v.class => {
                self.best = s;
                self.v = v;
                true
            }
            _ => false,
        }
    }
    /// ddmin over a list of the scenario
    fn list(&mut self, len: impl Fn(&Scenario) -> usize, cut: impl Fn(&mut Scenario, &[bool])) {
        let mut chunk = len(&self.best).div_ceil(2).max(1);
        loop {
            let mut at = 0;
            while at < len(&self.best) && !self.late() {
                let n = len(&self.best);
                let keep: Vec<bool> = (0..n).map(|k| k < at || k >= at + chunk).collect();
                let mut s = self.best.clone();
                cut(&mut s, &keep);
                if !self.attempt(s) {
                    at += chunk;
                }
            }
            if chunk == 1 || self.late() {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
    fn run_indices(&self) -> Vec<usize> {
        (0..self.best.steps.len()).filter(|k| matches!(self.best.steps[*k], Step::Run(_))).collect()
    }
    /// Replace seeds by what they decided.
    fn explicit(&mut self) {
        let (_, runs) = check_keeping(self.p, &self.best, self.ex);
        let at = self.run_indices();
        if runs.len() < at.len() {
            return;
        }
        for (n, k) in at.into_iter().enumerate() {
            let o = runs[n].1.clone();
            let same = |s: &Scenario| matches!(&s.steps[k], Step::Run(r) if r.procs == runs[n].0.procs);
            if !same(&self.best) {
                return;
            }
            let mut s = self.best.clone();
            if let Step::Run(r) = &mut s.steps[k] {
                if r.cfg.sched_mode != 0 {
                    r.cfg.sched_mode = 0;
                    r.trace = o.switches.clone();
                }
            }
            self.attempt(s);
            let mut s = self.best.clone();
            if let Step::Run(r) = &mut s.steps[k] {
                let old = r.faults.clone();
                if old.iter().any(|f| f.kind < FaultKind::Replace && (f.from != f.to || f.prob < 65536)) {
                    r.faults = o
                        .fired
                        .iter()
                        .map(|x| {
                            let f = &old[x.fault as usize];
                            let mut g = Fault::at(f.kind, x.op, if f.kind == FaultKind::Short { x.arg } else { f.arg });
                            g.data = f.data.clone();
                            g.proc = f.proc;
                            if f.kind >= FaultKind::Replace {
                                g = f.clone();
                            }
                            g
                        })
                        .collect();
                    r.faults.dedup();
                }
            }
            self.attempt(s);
        }
    }
    fn runs(&mut self) {
        for k in self.run_indices() {
            fn run(s: &Scenario, k: usize) -> &RunSpec {
                match &s.steps[k] {
                    Step::Run(r) => r,
                    _ => unreachable!(),
                }
            }
            fn run_mut(s: &mut Scenario, k: usize) -> &mut RunSpec {
                match &mut s.steps[k] {
                    Step::Run(r) => r,
                    _ => unreachable!(),
                }
            }
            self.list(|s| run(s, k).faults.len(), |s, keep| filter(&mut run_mut(s, k).faults, keep));
            self.list(|s| run(s, k).trace.len(), |s, keep| filter(&mut run_mut(s, k).trace, keep));
            self.list(|s| run(s, k).alloc_points.len(), |s, keep| filter(&mut run_mut(s, k).alloc_points, keep));
            self.list(|s| run(s, k).code_points.len(), |s, keep| filter(&mut run_mut(s, k).code_points, keep));
            if run(&self.best, k).procs.len() > 1 {
                self.list(|s| run(s, k).procs.len(), |s, keep| filter(&mut run_mut(s, k).procs, keep));
            }
        }
    }
    fn cfg(&mut self) {
        let d = Cfg::default();
        for k in self.run_indices() {
            let sets: [fn(&mut Cfg, &Cfg); 18] = [
                |c, d| *c = d.clone(),
                |c, d| c.ncpu = d.ncpu,
                |c, _| c.ncpu = c.ncpu.min(2),
                |c, d| c.hash_seed = d.hash_seed,
                |c, d| c.wall0 = d.wall0,
                |c, d| c.mono0 = d.mono0,
                |c, d| (c.tick, c.jitter, c.alloc_ns) = (d.tick, d.jitter, d.alloc_ns),
                |c, d| c.gran = d.gran,
                |c, d| c.readdir_mode = d.readdir_mode,
                |c, d| c.ino_seed = d.ino_seed,
                |c, d| c.pid_base = d.pid_base,
                |c, d| (c.alloc_fail_from, c.alloc_fail_to) = (d.alloc_fail_from, d.alloc_fail_to),
                |c, d| (c.thread_fail_from, c.thread_fail_to) = (d.thread_fail_from, d.thread_fail_to),
                |c, d| c.spurious_p = d.spurious_p,
                |c, d| c.flags = d.flags,
                |c, d| c.heap_seed = d.heap_seed,
                |c, d| (c.sched_seed, c.sched_p, c.sched_mode) = (d.sched_seed, d.sched_p, d.sched_mode),
                |c, d| (c.fault_seed, c.time_seed) = (d.fault_seed, d.time_seed),
            ];
            for f in sets {
                let mut s = self.best.clone();
                if let Step::Run(r) = &mut s.steps[k] {
                    f(&mut r.cfg, &d);
                }
                self.attempt(s);
            }
        }
    }
    fn tree(&mut self) {
        // whole subtrees first, then single nodes
        let mut dirs: Vec<String> = self.best.image.0.keys().cloned().collect();
        dirs.sort_by_key(|d| (d.matches('/').count(), d.clone()));
        for d in dirs {
            if self.best.image.0.contains_key(&d) {
                let mut s = self.best.clone();
                s.image.remove(&d);
                self.attempt(s);
            }
        }
    }
    fn text(&mut self) {
        let files: Vec<String> = self.best.image.0.iter().filter(|(_, n)| n.kind == Kind::File && !n.data.bytes().is_empty()).map(|(p, _)| p.clone()).collect();
        for f in files {
            self.lines(
                |s| s.image.get(&f).map(|d| d.to_vec()),
                |s, d| {
                    if let Some(n) = s.image.0.get_mut(&f) {
                        n.data = d.into();
                    }
                },
            );
        }
        for k in 0..self.best.steps.len() {
            self.lines(
                |s| match &s.steps[k] {
                    Step::Write { data, .. } => Some(data.bytes().to_vec()),
                    _ => None,
                },
                |s, d| {
                    if let Step::Write { data, .. } = &mut s.steps[k] {
                        *data = d.into();
                    }
                },
            );
        }
    }
    fn lines(&mut self, get: impl Fn(&Scenario) -> Option<Vec<u8>>, set: impl Fn(&mut Scenario, Vec<u8>)) {
        let split = |d: Vec<u8>| -> Vec<Vec<u8>> { d.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect() };
        let Some(d) = get(&self.best) else { return };
        if d.len() > 400_000 {
            return;
        }
        let n0 = split(d).len();
        if n0 < 2 {
            return;
        }
        // elements of a device, as whole blocks
        let Some(d) = get(&self.best) else { return };
        let mut ls = split(d);
        let indent = |l: &[u8]| l.iter().take_while(|c| **c == b' ').count();
        let mut at = 0;
        while at < ls.len() && !self.late() {
            let open = ls[at].trim_ascii();
            let tag: Vec<u8> = open.strip_prefix(b"<").map(|t| t.iter().take_while(|c| c.is_ascii_alphanumeric()).copied().collect()).unwrap_or_default();
            let close = [b"</", &tag[..], b">"].concat();
            let end = if tag.is_empty() || open.windows(close.len()).any(|w| w == close) { None } else { (at + 1..ls.len()).find(|k| ls[*k].trim_ascii().starts_with(&close) && indent(&ls[*k]) <= indent(&ls[at])) };
            if let Some(e) = end {
                let mut t = ls.clone();
                t.drain(at..=e);
                let mut s = self.best.clone();
                set(&mut s, t.concat());
                if self.attempt(s) {
                    ls = t;
                    continue;
                }
            }
            at += 1;
        }
        let len = |s: &Scenario| get(s).map_or(0, |d| d.split_inclusive(|c| *c == b'\n').count());
        self.list(len, |s, keep| {
            if let Some(d) = get(s) {
                let mut l = split(d);
                filter(&mut l, keep);
                set(s, l.concat());
            }
        });
    }
    fn env(&mut self) {
        for k in self.run_indices() {
            let mut s = self.best.clone();
            if let Step::Run(r) = &mut s.steps[k] {
                for p in &mut r.procs {
                    p.env.clear();
                }
            }
            self.attempt(s);
            // arguments, one at a time
            let mut a = 2;
            loop {
                let mut s = self.best.clone();
                let mut any = false;
                if let Step::Run(r) = &mut s.steps[k] {
                    if r.procs.len() == 1 && a < r.procs[0].argv.len() {
                        r.procs[0].argv.remove(a);
                        any = true;
                    }
                }
                if !any {
                    break;
                }
                if !self.attempt(s) {
                    a += 1;
                }
            }
        }
    }
}
