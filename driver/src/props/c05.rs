//! html never leaves a stale page behind.
use super::*;

pub struct P;
const SEC: u64 = 1_000_000_000;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn count(&self) -> (u64, u64) {
        (2600, 36400)
    }
    fn rule(&self) -> &'static str {
        "histories of 4 to 14 steps over 1 to 3 devices: edits, touches, deletions of pages, copies, index or directory, time passing (nanoseconds to days), clock steps back and forth, file systems with 1 ns to 2 s time stamps, html runs on subsets of the inputs, some killed or failing. After every successful run the directory is compared with the model. Non-trivial: at least two runs."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["page regenerated", "page left alone", "same second", "clock behind"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let mut c = generate(r, ex, &[Cmd::Html], &GenOpt { light: true, ..Default::default() });
        if c.inputs.is_empty() {
            return;
        }
        let keep = c.inputs.len().min(3);
        for p in c.inputs.drain(keep..) {
            c.image.remove(&p);
        }
        let dir = c.dir.clone().unwrap();
        c.image.dir("/w");
        let ones: Vec<One> = c.inputs.iter().filter_map(|i| one(ex, &c.image, &dir, i)).collect();
        if ones.len() != c.inputs.len() {
            return;
        }
        let now = WALL0 as i64;
        for p in &c.inputs {
            c.image.0.get_mut(p).unwrap().mtime = now - *r.pick(&[0, 1, 300_000_000, 1_500_000_000, 60_000_000_000, 86_400_000_000_000]);
            if r.chance(1, 12) {
                // from the future, from the epoch, from before it
                c.image.0.get_mut(p).unwrap().mtime = *r.pick(&[now + 5 * SEC as i64, now + 400_000_000, 2 * now, 0, 1, -1, -400_000_000, -86_400 * SEC as i64]);
            }
        }
        let mut steps = vec![];
        let run = |r: &mut Rng, c: &Case| {
            let mut a = argv("html");
            a.push(dir.clone());
            let some = r.chance(1, 5);
            for p in &c.inputs {
                if !some || r.chance(1, 2) {
                    a.push(c.named(p));
                }
            }
            let mut s = plain(&ProcSpec { argv: a, env: vec![], cwd: "/w".into() });
            if r.chance(1, 3) {
                s.cfg.ncpu = r.range(2, 4);
                schedule(r, &mut s.cfg);
            }
            s.cfg.tick = *r.pick(&[1000, 1000, 100_000, 20_000_000]);
            s.cfg.pid_base = r.range(300, 320);
            if r.chance(1, 10) {
                let k = r.range(1, 60);
                s.faults.push(Fault::at(if r.chance(1, 2) { FaultKind::KillBefore } else { FaultKind::Error }, k, libc::EIO as i64));
            }
            Step::Run(s)
        };
        steps.push(run(r, &c));
        let mut cur: Vec<Vec<u8>> = c.inputs.iter().map(|p| c.image.get(p).unwrap().to_vec()).collect();
        for _ in 0..r.range(3, 13) {
            let k = r.below(c.inputs.len() as u64) as usize;
            let p = c.inputs[k].clone();
            match r.below(16) {
                0..=3 => {
                    if r.chance(1, 2) && !c.devs.is_empty() {
                        // now and then with another name: the page has another name too
                        let n = if r.chance(1, 6) { format!("Renamed{k}x{}", r.below(2)) } else { c.devs[k].name.clone() };
                        let v = variant(r, &c.devs[k], &n);
                        cur[k] = v.xml().into_bytes();
                    } else {
                        cur[k] = edit_text(r, &cur[k]);
                    }
                    steps.push(Step::Write { path: p, data: cur[k].clone().into() });
                }
                4 => steps.push(Step::Touch { path: p }),
                5 => {
                    let o = &ones[k];
                    let victim = match r.below(4) {
                        0 => o.page.clone(),
                        1 => o.copy.as_ref().map_or(o.page.clone(), |c| c.0.clone()),
                        2 => format!("{dir}/index.html"),
                        _ if !c.inputs.iter().any(|i| i.starts_with(&format!("{dir}/"))) => dir.clone(),
                        _ => o.page.clone(),
                    };
                    steps.push(Step::Remove { path: victim });
                }
                6..=8 => steps.push(Step::Advance { ns: *r.pick(&[1, 1000, 300_000_000, SEC - 1, SEC, SEC + 1, 2 * SEC, 60 * SEC, 86_400 * SEC]) }),
                9 => steps.push(Step::Jump { ns: if r.chance(1, 12) { -now + r.range(0, 4) as i64 * SEC as i64 - 2 * SEC as i64 } else { *r.pick(&[-3600, -5, -2, -1, 1, 3, 7200]) * SEC as i64 } }),
                _ => steps.push(run(r, &c)),
            }
        }
        steps.push(run(r, &c));
        let mut s = scenario("C05", "history", &c, plain(&c.proc));
        s.steps = steps;
        s.facts.insert("gran".into(), vec![r.pick(&[1u64, 1_000_000, SEC, SEC, 2 * SEC]).to_string()]);
        sink(s, ex);
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let gran = s.fact("gran").first().and_then(|g| g.parse().ok()).unwrap_or(1);
        let mut h = Hist::new(&s.image, gran);
        // input -> content its page was last made from, if nothing happened to the page since
        let mut made: BTreeMap<String, Blob> = BTreeMap::new();
        let mut runs = 0;
        for (n, st) in s.steps.iter().enumerate() {
            let Step::Run(run) = st else {
                h.apply(st);
                if let Step::Remove { .. } = st {
                    made.clear();
                }
                continue;
            };
            let before = h.image.clone();
            ex.nontrivial = runs > 0;
            let o = h.run(ex, &s.bin, run);
            ex.nontrivial = false;
            runs += 1;
            let (dir, ins) = html_args(&before, &run.procs[0]);
            if o.verdict != Verdict::Ok {
                return Ok(());
            }
            if !o.procs[0].ok() {
                made.clear();
                continue;
            }
            let bad = |class: &str, d: String| violation(class, format!("after step {n} ({}): {d}", run.procs[0].argv.join(" ")));
            for i in &ins {
                let Some(x) = one(ex, &before, &dir, i) else { return Ok(()) };
                let svd = &before.0[i];
                let secs = |t: i64| t.div_euclid(SEC as i64);
                let old = before.0.get(&x.page);
                let due = old.map_or(true, |p| secs(p.mtime) <= secs(svd.mtime));
                if due {
                    if old.is_some() {
                        ex.stats.probe(if secs(old.unwrap().mtime) == secs(svd.mtime) { "same second" } else { "page regenerated" });
                    }
                    match h.image.get(&x.page) {
                        Some(d) if d == x.page_data.bytes() => {}
                        Some(d) => return bad("stale page", format!("{} is stale: {}", x.page, first_diff(d, x.page_data.bytes()))),
                        None => return bad("stale page", format!("{} is missing", x.page)),
                    }
                    if let Some((p, d)) = &x.copy {
                        if h.image.get(p) != Some(d.bytes()) {
                            return bad("stale copy", format!("{p} is not the SVD that the page is made from"));
                        }
                    }
                    made.insert(i.clone(), svd.data.clone());
                } else {
                    let unchanged = made.get(i) == Some(&svd.data);
                    if unchanged {
                        ex.stats.probe("page left alone");
                        let e = &o.files[&x.page];
                        if o.fired.is_empty() && (e.dirty != 0 || e.created || e.moved) {
                            return bad("rewritten", format!("{} is rewritten although its SVD is unchanged and older", x.page));
                        }
                        if e.node.data != x.page_data {
                            return bad("stale page", format!("{} is stale although its SVD is unchanged since", x.page));
                        }
                    } else {
                        ex.stats.probe("clock behind");
                    }
                }
            }
            let fresh = fresh_html(&before, &dir, &ins);
            let r = ex.reference(&s.bin, &fresh, &run.procs[0]);
            let index = format!("{dir}/index.html");
            if r.procs[0].ok() && h.image.get(&index) != r.files.get(&index).map(|e| e.node.data.bytes()) {
                return bad("stale index", "the index is not what a run into an empty directory produces".into());
            }
        }
        Ok(())
    }
}
