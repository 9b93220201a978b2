//! makedeps lists exactly the patch files that patch reads.
use super::*;

pub struct P;
/// The file that was spoiled, as it was.
const GOOD: &str = "/keep/good.yaml";

fn graph(r: &mut Rng) -> crate::genpatch::GraphOpt {
    crate::genpatch::GraphOpt { files: r.range(1, 8), diamonds: r.chance(1, 2), links: r.chance(1, 2), empties: r.chance(1, 3) }
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn count(&self) -> (u64, u64) {
        (16000, 224000)
    }
    fn rule(&self) -> &'static str {
        "include graphs of 1 to 8 files (nested, below peripherals, diamonds, repeated, through links, empty files, absolute paths); the rule of makedeps is compared with the YAML files that the simulated kernel saw patch open; then includes made unreadable or removed and I/O errors, after which makedeps must fail and leave its file alone. Non-trivial: at least one include, or a fault."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["compared", "repeated include", "link", "empty include", "nested includes", "unreadable include", "fault reported", "peripheral-level include", "register-level include", "same file name twice"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let g = graph(r);
        let mut c = generate(r, ex, &[Cmd::Makedeps], &GenOpt { graph: Some(g), light: true, ..Default::default() });
        let Some(set) = c.set.clone() else { return };
        if r.chance(1, 2) {
            let o = ex.reference("svdtools", &c.image, &c.proc);
            litter(r, &mut c, Some(&o));
        }
        if r.chance(1, 4) && !set.opened.is_empty() {
            // one more mention of a file, as written in another way
            let inc = r.pick(&set.opened).clone();
            let mut files = set.opened.clone();
            files.push(set.root.clone());
            let f = r.pick(&files).clone();
            let anc = c.image.get(&f).map(|d| d.to_vec()).unwrap_or_default();
            let t = String::from_utf8_lossy(&anc).into_owned();
            if inc != f && !t.contains("_include") && !t.trim().is_empty() && t.trim() != "{}" {
                let rel = crate::genpatch::relative(&f, &inc);
                let rel = r.pick(&[rel.clone(), format!("./{rel}"), inc.clone(), format!("../{}/{}", f.rsplit('/').nth(1).unwrap_or("w"), rel)]).clone();
                c.image.file(&f, format!("{t}\n_include:\n  - {rel}\n"));
            }
        }
        let root = set.root.clone();
        let mk = |run: RunSpec, c: &Case, shape: &str| scenario("C11", shape, c, run).set("root", vec![root.clone()]).set("svd", vec![set.svd.clone()]).set("links", vec![g.links.to_string()]);
        let mut run = plain(&c.proc);
        shake(r, &mut run.cfg);
        if !sink(mk(run, &c, "compare"), ex) {
            return;
        }
        let o = ex.reference("svdtools", &c.image, &c.proc);
        if !o.procs[0].ok() {
            return;
        }
        // an include that cannot be read
        for _ in 0..3 {
            if c.inputs.len() < 2 {
                break;
            }
            let mut d = c.clone();
            let p = d.inputs[1 + r.below(d.inputs.len() as u64 - 1) as usize].clone();
            if !o.log.iter().any(|x| x.op == op::OPEN && x.path == p) {
                continue;
            }
            let data = d.image.get(&p).unwrap_or(b"").to_vec();
            d.image.file(GOOD, data.clone());
            match r.below(6) {
                0 => d.image.remove(&p),
                1 => {
                    d.image.remove(&p);
                    d.image.dir(&p);
                }
                2 => d.image.0.get_mut(&p).unwrap().mode = 0,
                3 => d.image.file(&p, [&data[..], b"\nX: [unclosed\n"].concat()),
                4 => d.image.file(&p, [&data[..], b"\xff\n"].concat()),
                _ => d.image.file(&p, "- a list\n"),
            }
            let mut n = mk(plain(&d.proc), &d, "unreadable");
            n.facts.insert("spoiled".into(), vec![p]);
            if !sink(n, ex) {
                return;
            }
        }
        for _ in 0..4 {
            let mut run = plain(&c.proc);
            let ins = &c.inputs;
            let Some(x) = pick_rec(r, &o.log, |x| ins.contains(&x.path) && matches!(x.op, op::OPEN | op::READ | op::REALPATH | op::STAT)) else { continue };
            let e = error_for(r, x.op).unwrap();
            let mut f = Fault::at(FaultKind::Error, x.idx as u64, e);
            if r.chance(1, 3) {
                f.to = u64::MAX;
                f.max = 0;
                f.ops = bit(x.op);
                f.path = Some(x.path.clone());
            }
            run.faults.push(f);
            if !sink(mk(run, &c, "fault"), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let p = &run.procs[0];
        ex.nontrivial = s.fact("inputs").len() > 1;
        let o = ex.go(&s.bin, &s.image, run);
        ex.nontrivial = false;
        if o.verdict != Verdict::Ok {
            return Ok(());
        }
        let cmd = p.argv.join(" ");
        let out = s.fact("out").first().cloned().unwrap_or_default();
        let name = p.argv.get(3).cloned().unwrap_or_default();
        let untouched = || -> Check {
            if let Some((p, how)) = touched(&s.image, &o).iter().next() {
                return violation("touched", format!("{cmd} fails but {p} was {how}"));
            }
            Ok(())
        };
        // what patch reads
        let mut q = ProcSpec { argv: argv("patch"), env: vec![], cwd: p.cwd.clone() };
        q.argv.extend([p.argv[2].clone(), "/tmp/unused.svd".into()]);
        let r = ex.reference(&s.bin, &s.image, &q);
        // every other file it opens, up to the SVD, is a patch file
        let real = |x: &str| s.image.real(x).unwrap_or(x.to_string());
        let root = real(&abs(&p.cwd, &p.argv[2]));
        let svd = s.fact("svd").first().cloned().unwrap_or_default();
        let opened: Vec<String> = r
            .log
            .iter()
            .filter(|x| x.op == op::OPEN && x.err == 0 && !x.path.starts_with("/tmp/unused"))
            .map(|x| real(&x.path))
            .take_while(|x| *x != svd)
            .filter(|x| *x != root)
            .collect();
        let reached_svd = r.log.iter().any(|x| x.op == op::OPEN && real(&x.path) == svd);
        let listed = |o: &Outcome| -> Result<Vec<String>, Violation> {
            let Some(d) = o.files.get(&out) else { return Err(Violation { class: "missing".into(), detail: format!("{cmd}: exit 0 but no {out}") }) };
            let t = String::from_utf8_lossy(d.node.data.bytes()).into_owned();
            let Some(rest) = t.strip_prefix(&format!("{name}:")) else {
                return Err(Violation { class: "target".into(), detail: format!("{cmd}: the rule does not name {name} as its target: {}", clip(t.as_bytes())) });
            };
            if !rest.ends_with('\n') || rest.trim_end_matches('\n').contains('\n') {
                return Err(Violation { class: "format".into(), detail: format!("{cmd}: not one line: {}", clip(t.as_bytes())) });
            }
            Ok(rest.split_whitespace().map(|s| s.to_string()).collect())
        };
        if s.shape == "fault" {
            let u = ex.reference(&s.bin, &s.image, p);
            if !o.procs[0].ok() {
                ex.stats.probe("fault reported");
                return if o.fired.is_empty() { Ok(()) } else { untouched() };
            }
            if !o.fired.is_empty() && u.procs[0].ok() {
                let (a, b) = (listed(&o)?, listed(&u)?);
                if a != b {
                    return violation("shorter list", format!("{cmd}: exit 0 after {}, but lists {a:?} instead of {b:?}", c02::faults(run, &o)));
                }
            }
            return Ok(());
        }
        if s.shape == "unreadable" {
            ex.stats.probe("unreadable include");
            if !o.procs[0].ok() {
                return untouched();
            }
            // with the file as it was, is it part of the graph?
            let spoiled = s.fact("spoiled").first().cloned().unwrap_or_default();
            let mut whole = s.image.clone();
            if let Some(n) = s.image.0.get(GOOD) {
                whole.remove(&spoiled);
                whole.0.insert(spoiled.clone(), n.clone());
                let u = ex.reference(&s.bin, &whole, p);
                if u.procs[0].ok() && u.log.iter().any(|x| x.op == op::OPEN && x.err == 0 && x.path == spoiled) {
                    return violation("unreadable include accepted", format!("{cmd}: exit 0, but {spoiled}, which is included, cannot be read as a patch file"));
                }
            }
        }
        if !reached_svd {
            // patch fails while it loads its files
            if o.procs[0].ok() && !r.procs[0].ok() {
                return violation("unreadable include accepted", format!("{cmd}: exit 0, but patch cannot load its files: {}", clip(&r.procs[0].err)));
            }
            return Ok(());
        }
        if !o.procs[0].ok() {
            return violation("refused", format!("{cmd}: {}, but patch loads the same files: {}", o.procs[0].show(), clip(&o.procs[0].err)));
        }
        let have = listed(&o)?;
        ex.stats.probe("compared");
        let (a, b): (BTreeSet<&String>, BTreeSet<&String>) = (have.iter().collect(), opened.iter().collect());
        if opened.len() > b.len() {
            ex.stats.probe("repeated include");
        }
        if s.image.0.values().any(|n| n.kind == Kind::Link) {
            ex.stats.probe("link");
        }
        if opened.iter().any(|p| s.image.get(p) == Some(b"")) {
            ex.stats.probe("empty include");
        }
        if opened.len() > 2 {
            ex.stats.probe("nested includes");
        }
        if s.image.get(&root).map_or(false, |t| t.windows(12).any(|w| w == b"\n  _include:") || t.windows(13).any(|w| w == b"\n  \"_include\"")) {
            ex.stats.probe("peripheral-level include");
        }
        if opened.iter().any(|p| p.ends_with("_reg.yaml")) {
            ex.stats.probe("register-level include");
        }
        let names: BTreeSet<&str> = b.iter().filter_map(|p| p.rsplit('/').next()).collect();
        if names.len() < b.len() {
            ex.stats.probe("same file name twice");
        }
        if let Some(p) = b.difference(&a).next() {
            return violation("not listed", format!("{cmd}: patch reads {p}, which is not listed in {have:?}"));
        }
        if let Some(p) = a.difference(&b).next() {
            return violation("not read", format!("{cmd}: lists {p}, which patch does not read (it reads {b:?}), or not as canonical path"));
        }
        Ok(())
    }
}
