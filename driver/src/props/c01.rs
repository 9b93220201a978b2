//! A run that fails before output is due leaves every existing file untouched.
use super::*;

pub struct P;

/// Break one input, in place. Returns what was done.
pub fn spoil(r: &mut Rng, c: &mut Case) -> &'static str {
    if c.inputs.is_empty() {
        return "nothing";
    }
    let p = r.pick(&c.inputs).clone();
    let data = c.image.get(&p).map(|d| d.to_vec()).unwrap_or_default();
    let is_xml = is_xml(&data);
    if is_xml && r.chance(if c.cmd == Cmd::Htmlcompare { 4 } else { 1 }, 16) {
        // one of the names in it
        let t = String::from_utf8_lossy(&data).into_owned();
        let at: Vec<usize> = t.match_indices("<name>").map(|x| x.0 + 6).collect();
        if !at.is_empty() {
            let k = at[r.below(at.len() as u64) as usize];
            let e = k + t[k..].find('<').unwrap_or(0);
            c.image.file(&p, format!("{}{}{}", &t[..k], r.pick(&["a/b", "..", "../x", "", "/", "x/", " ", "%s", "[%s]", "&lt;"]), &t[e..]));
            return "odd name in input";
        }
    }
    if matches!(c.cmd, Cmd::Patch | Cmd::Expand | Cmd::Makedeps) && r.chance(1, 20) && c.image.get(&p).is_some() {
        // its real name is not UTF-8 (and perhaps it is empty, so that it is not read on)
        let odd = format!("{}/o{}d.yaml", &p[..p.rfind('/').unwrap()], crate::sim::ODD);
        c.image.remove(&p);
        c.image.link(&p, &odd);
        c.image.file(&odd, if r.chance(1, 2) { Vec::new() } else { data });
        return "name that is not UTF-8";
    }
    match r.below(14) {
        0 => {
            c.image.remove(&p);
            "missing input"
        }
        1 => {
            c.image.remove(&p);
            c.image.dir(&p);
            "directory as input"
        }
        2 => {
            c.image.0.get_mut(&p).unwrap().mode = 0;
            "unreadable input"
        }
        3 | 4 => {
            let n = r.below(data.len() as u64 + 1) as usize;
            c.image.file(&p, data[..n].to_vec());
            "truncated input"
        }
        5 => {
            c.image.file(&p, Vec::new());
            "empty input"
        }
        6 => {
            let mut d = data;
            let k = r.below(d.len() as u64 + 1) as usize;
            d.insert(k, 0xff);
            c.image.file(&p, d);
            "input that is not UTF-8"
        }
        7 => {
            let mut d = data;
            for _ in 0..r.range(1, 6) {
                if d.is_empty() {
                    break;
                }
                let k = r.below(d.len() as u64) as usize;
                d[k] = *r.pick(b"<>:{}[]&\"'\n -x0");
            }
            c.image.file(&p, d);
            "garbled input"
        }
        8 | 9 if !is_xml => {
            let t = String::from_utf8_lossy(&data).into_owned();
            let extra = *r.pick(&[
                "NOSUCHPERIPHERAL:\n  CR:\n    EN: [0, 1]\n",
                "_delete:\n  - {}\n_modify:\n  NOSUCH:\n    description: x\n",
                "_svd: nowhere.svd\n",
                "_include:\n  - nowhere.yaml\n",
                "X: [unclosed\n",
                "\tTAB: 1\n",
                "_modify: 7\n",
                "_add:\n  NEWP:\n    registers: 3\n",
                "_copy:\n  Z:\n    from: NOPE\n",
                "_rebase:\n  A: B\n",
                "\"*\":\n  \"*\":\n    \"*\": {A: [0, x], A: [0, y]}\n",
                "\"*\":\n  _strip: Q\n  \"*\":\n    \"*\":\n      B0: [999, too large]\n",
                "- list\n",
            ]);
            c.image.file(&p, format!("{t}\n{extra}"));
            "rule that cannot be applied"
        }
        10 if is_xml => {
            let t = String::from_utf8_lossy(&data).into_owned();
            let (a, b) = *r.pick(&[
                ("<bitWidth>", "<bitWidth>9"),
                ("<addressOffset>0x", "<addressOffset>zz"),
                ("</name>", "</nome>"),
                ("derivedFrom=\"", "derivedFrom=\"NO"),
                ("<name>", "<name>%s"),
                ("<baseAddress>", "<baseAddress>-"),
                ("<dim>", "<dim>0x"),
                ("<value>", "<value>?"),
            ]);
            c.image.file(&p, t.replacen(a, b, 1 + r.below(2) as usize));
            "invalid device"
        }
        _ => {
            let f = "/w/cfg/bad.yaml".to_string();
            if matches!(c.cmd, Cmd::Patch | Cmd::Convert) && !c.proc.argv.iter().any(|a| a == "--format-config") {
                let (name, text) = *r.pick(&[
                    ("bad.yaml", "peripheral_name: Nonsense\n"),
                    ("bad.yaml", "a: [1\n"),
                    ("bad.json", "{"),
                    ("bad.json", "{\"field_sorting\": 1}"),
                    ("bad.txt", "x"),
                    ("bad", "x"),
                ]);
                let f = f.replace("bad.yaml", name);
                c.image.file(&f, text);
                c.proc.argv.extend(["--format-config".into(), f]);
                "bad format configuration"
            } else {
                c.image.file(&p, "\u{0}\u{1}");
                "binary input"
            }
        }
    }
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn count(&self) -> (u64, u64) {
        (15000, 210000)
    }
    fn rule(&self) -> &'static str {
        "patch, expand-patch, convert, makedeps and htmlcompare runs on generated trees, with a previous output present or not; inputs spoiled, or read errors, kills and allocation failures placed before the last operation that reads input. Non-trivial: the run failed."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["failed on bad input", "failed on read error", "killed while reading", "failed on allocation", "previous output present"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let mut c = generate(r, ex, WRITERS, &GenOpt::default());
        let o = ex.reference("svdtools", &c.image, &c.proc);
        litter(r, &mut c, Some(&o));
        // spoiled inputs
        for _ in 0..4 {
            let mut d = c.clone();
            let what = spoil(r, &mut d);
            let mut run = plain(&d.proc);
            if r.chance(1, 3) {
                shake(r, &mut run.cfg);
            }
            let s = scenario("C01", "bad input", &d, run).set("what", vec![what.into()]);
            if !sink(s, ex) {
                return;
            }
        }
        let o = ex.reference("svdtools", &c.image, &c.proc);
        let Some(last) = last_input(&c.inputs, &o).cloned() else { return };
        let ins = c.inputs.clone();
        for _ in 0..5 {
            let mut run = plain(&c.proc);
            let shape = match r.below(3) {
                0 => {
                    let Some(x) = pick_rec(r, &o.log, |x| x.idx <= last.idx && matches!(x.op, op::OPEN | op::READ | op::STAT | op::REALPATH) && ins.contains(&x.path)) else { continue };
                    let e = error_for(r, x.op).unwrap();
                    let mut f = Fault::at(FaultKind::Error, x.idx as u64, e);
                    if r.chance(1, 4) {
                        f.to = u64::MAX;
                        f.max = 0;
                        f.ops = bit(x.op);
                        f.path = Some(x.path.clone());
                    }
                    run.faults.push(f);
                    if r.chance(1, 4) {
                        run.faults.push(Fault::any(FaultKind::Short, bit(op::READ), 20000, 0));
                    }
                    "read error"
                }
                1 => {
                    let k = r.range(1, last.idx as u64);
                    run.faults.push(Fault::at(if r.chance(1, 2) || k == last.idx as u64 { FaultKind::KillBefore } else { FaultKind::KillAfter }, k, 0));
                    "kill"
                }
                _ => {
                    if last.allocs == 0 {
                        continue;
                    }
                    let k = r.range(1, last.allocs);
                    run.cfg.alloc_fail_from = k;
                    run.cfg.alloc_fail_to = *r.pick(&[k, k, k + 3, u64::MAX - 1]);
                    "allocation failure"
                }
            };
            if !sink(scenario("C01", shape, &c, run), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let o = ex.go(&s.bin, &s.image, run);
        if o.verdict != Verdict::Ok || o.procs[0].ok() {
            return Ok(()); // C14, C02
        }
        if s.fact("out").iter().any(|p| s.image.0.contains_key(p)) {
            ex.stats.probe("previous output present");
        }
        match s.shape.as_str() {
            "bad input" => ex.stats.probe("failed on bad input"),
            "read error" => ex.stats.probe("failed on read error"),
            "kill" => ex.stats.probe("killed while reading"),
            _ => ex.stats.probe("failed on allocation"),
        }
        if s.shape != "bad input" {
            // did it strike while there was input to read?
            let r = ex.reference(&s.bin, &s.image, &run.procs[0]);
            let Some(last) = last_input(s.fact("inputs"), &r) else { return Ok(()) };
            let first = match s.shape.as_str() {
                "allocation failure" => o.c.alloc_failed > 0 && run.cfg.alloc_fail_from <= last.allocs,
                _ => o.fired
                        .iter()
                        .filter(|f| run.faults[f.fault as usize].kind != FaultKind::Short)
                        .map(|f| f.op)
                        .min()
                        .map_or(false, |k| k <= last.idx as u64),
            };
            if !first {
                return Ok(());
            }
        }
        let t = touched(&s.image, &o);
        if let Some((p, how)) = t.iter().next() {
            return violation(
                "touched",
                format!(
                    "{} ended with {} ({}{}) and {p} was {how}; message: {}",
                    run.procs[0].argv.join(" "),
                    o.procs[0].show(),
                    s.shape,
                    s.fact("what").first().map_or(String::new(), |w| format!(": {w}")),
                    clip(&o.procs[0].err)
                ),
            );
        }
        Ok(())
    }
}
