//! A run sees each input file as one version, never a mixture.
use super::*;

pub struct P;
const CMDS: &[Cmd] = &[
    Cmd::Patch, Cmd::Patch, Cmd::Patch, Cmd::Expand, Cmd::Expand, Cmd::Makedeps, Cmd::Makedeps, Cmd::Convert, Cmd::Convert, Cmd::Mmap, Cmd::Interrupts,
    Cmd::Info, Cmd::Htmlcompare,
];

fn variant_of(r: &mut Rng, c: &Case, p: &str, old: &[u8]) -> Vec<u8> {
    match c.inputs.iter().position(|i| i == p).and_then(|k| c.devs.get(k)) {
        Some(d) if r.chance(1, 2) => {
            let n = d.name.clone();
            let mut d = variant(r, d, &n);
            d.bom = false;
            d.xml().into_bytes()
        }
        _ => old.to_vec(),
    }
}

/// Another version of a file.
fn other(r: &mut Rng, c: &Case, p: &str, ex: &mut Exec) -> Vec<u8> {
    let old = c.image.get(p).unwrap_or(b"").to_vec();
    let is_xml = is_xml(&old);
    if p.contains("/format.") && r.chance(1, 2) {
        // other keys and values, in either notation
        let mut v = crate::case::config_pairs(&String::from_utf8_lossy(&old));
        if v.len() > 1 && r.chance(1, 2) {
            v.remove(r.below(v.len() as u64) as usize);
        }
        let json = p.ends_with(".json") || r.chance(1, 2);
        return crate::case::config_text(&v, json).into_bytes();
    }
    if p.ends_with(".yaml") && old.windows(13).any(|w| w == b"\nperipherals:") && r.chance(1, 3) {
        // a device, from now on in the other notation
        let d = match c.devs.first() {
            Some(d) if r.chance(1, 2) => d.xml(),
            _ => {
                let o = crate::gensvd::Opt::small(r);
                crate::gensvd::device(r, &o, "Replaced").xml()
            }
        };
        if let Some(t) = translated(ex, d.as_bytes(), "json") {
            return t;
        }
    }
    match r.below(12) {
        11 => [*r.pick(&[&b"\n"[..], b" ", b"\r\n", b"# x\n", b"<!-- x -->\n"]), &old[..]].concat(),
        // the same text in another encoding: byte order mark, line ends
        10 => match old.strip_prefix("\u{feff}".as_bytes()) {
            Some(rest) => rest.to_vec(),
            None if is_xml => ["\u{feff}".as_bytes(), &variant_of(r, c, p, &old)].concat(),
            None => String::from_utf8_lossy(&old).replace('\n', "\r\n").into_bytes(),
        },
        0 => old[..r.below(old.len() as u64 + 1) as usize].to_vec(),
        1 => vec![],
        2 | 3 if is_xml && !c.devs.is_empty() => {
            let k = c.inputs.iter().position(|i| i == p).unwrap_or(0).min(c.devs.len() - 1);
            let n = c.devs[k].name.clone();
            variant(r, &c.devs[k], &n).xml().into_bytes()
        }
        4 if is_xml => {
            let o = crate::gensvd::Opt::small(r);
            crate::gensvd::device(r, &o, "Replaced").xml().into_bytes()
        }
        4 if old.starts_with(b"{") && p.ends_with(".json") => {
            let o = crate::gensvd::Opt::small(r);
            let d = crate::gensvd::device(r, &o, "Replaced").xml().into_bytes();
            translated(ex, &d, "json").unwrap_or_default()
        }
        5 if !is_xml && p.ends_with(".yaml") => {
            // lines moved and dropped: other includes, other rules
            let t = String::from_utf8_lossy(&old).into_owned();
            let mut blocks: Vec<String> = vec![];
            for l in t.split_inclusive('\n') {
                if l.starts_with(' ') && !blocks.is_empty() {
                    blocks.last_mut().unwrap().push_str(l);
                } else {
                    blocks.push(l.into());
                }
            }
            let n = blocks.len();
            if n > 1 {
                blocks.remove(r.below(n as u64) as usize);
            }
            blocks.concat().into_bytes()
        }
        6 if !is_xml && p.ends_with(".yaml") => [&old[..], b"\nNEWKEY_ZZ:\n  _strip: [Q_]\n"].concat(),
        7 if is_xml => {
            // same length
            String::from_utf8_lossy(&old).replace("Enable", "eNABLE").replace("status", "STATUS").replace("<version>1", "<version>7").into_bytes()
        }
        _ => edit_text(r, &old),
    }
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn count(&self) -> (u64, u64) {
        (7500, 105000)
    }
    fn rule(&self) -> &'static str {
        "patch, expand-patch, makedeps, convert, mmap, interrupts, info and htmlcompare; at one operation an input (or at two operations two inputs) is replaced by rename with another version: edited, truncated, empty, another device, other rules or includes; with short reads so that a file takes several operations. The run must equal one on a combination of versions. Non-trivial: a replacement happened during the run (the probes count those whose versions give different results)."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["saw the old version", "saw the new version", "versions differ in the result", "replaced while being read", "two replaced"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["inputs that the command line or the patch files name once (a file that is included several times may be read once per mention)"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let light = r.chance(1, 2);
        let c = generate(r, ex, CMDS, &GenOpt { light, ..Default::default() });
        if c.once.is_empty() {
            return;
        }
        let mut c = c;
        let mut back: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        if r.chance(1, 3) {
            // the other version comes first
            let p = r.pick(&c.once).clone();
            let patch = c.set.as_ref().map_or(false, |s| s.root == p || s.opened.contains(&p));
            if let (Some(old), false) = (c.image.get(&p).map(|d| d.to_vec()), patch) {
                let new = other(r, &c, &p, ex);
                let t = c.image.0[&p].mtime;
                c.image.put(&p, new, t);
                back.insert(p, old);
            }
        }
        let c = c;
        let o = ex.reference("svdtools", &c.image, &c.proc);
        for _ in 0..8 {
            let mut run = plain(&c.proc);
            shake(r, &mut run.cfg);
            let mut names = vec![];
            let slow = r.chance(1, 2);
            if slow {
                // the file is read in small pieces
                let mut f = Fault::any(FaultKind::Short, bit(op::READ), 65536, *r.pick(&[1, 100, 1000, 0]));
                f.max = *r.pick(&[10, 200, 2000]);
                run.faults.push(f);
            }
            let n = if r.chance(1, 6) { 2 } else { 1 };
            for _ in 0..n {
                let p = r.pick(&c.once).clone();
                if names.contains(&p) || c.image.get(&p).is_none() {
                    continue;
                }
                let first = o.log.iter().find(|x| x.path == p).map_or(1, |x| x.idx as u64);
                let last = o.log.iter().rev().find(|x| x.path == p).map_or(o.c.ioop, |x| x.idx as u64);
                let k = match r.below(6) {
                    0 => r.range(1, o.c.ioop),
                    1 => first,
                    2 => last + 1,
                    3 => r.range(1, first),
                    _ => r.range(first, last + if slow { 30 } else { 3 }),
                };
                let mut f = Fault::at(FaultKind::Replace, k, 0);
                let data = match back.get(&p) {
                    Some(d) if r.chance(2, 3) => d.clone(),
                    _ => other(r, &c, &p, ex),
                };
                f.data = Some(data.into());
                f.path = Some(p.clone());
                run.faults.push(f);
                names.push(p);
            }
            if names.is_empty() {
                continue;
            }
            if !sink(scenario("C12", "replace", &c, run), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let reps: Vec<(String, Blob)> = run.faults.iter().filter(|f| f.kind == FaultKind::Replace).map(|f| (f.path.clone().unwrap_or_default(), f.data.clone().unwrap_or_default())).collect();
        if reps.is_empty() || reps.len() > 4 || reps.iter().any(|x| !s.fact("inputs").contains(&x.0)) {
            return Ok(());
        }
        // both versions of every input
        let mut wants = vec![];
        for m in 0..1u32 << reps.len() {
            let mut i = s.image.clone();
            for (k, (p, d)) in reps.iter().enumerate() {
                if m >> k & 1 == 1 {
                    if let Some(n) = i.0.get_mut(p) {
                        n.data = d.clone();
                    }
                }
            }
            let r = ex.reference(&s.bin, &i, &run.procs[0]);
            if r.verdict != Verdict::Ok {
                return Ok(());
            }
            wants.push(delivered(s, &r));
        }
        let differ = wants.iter().any(|w| *w != wants[0]);
        ex.nontrivial = false;
        let o = ex.go(&s.bin, &s.image, run);
        if o.verdict != Verdict::Ok {
            return stuck(run, &o);
        }
        let got = delivered(s, &o);
        if differ {
            ex.stats.probe("versions differ in the result");
        }
        if reps.len() > 1 {
            ex.stats.probe("two replaced");
        }
        for (p, _) in &reps {
            let during = o.fired.iter().any(|f| {
                run.faults[f.fault as usize].path.as_ref() == Some(p)
                    && o.log.iter().any(|x| x.path == *p && x.op == op::OPEN && (x.idx as u64) < f.op)
                    && o.log.iter().any(|x| x.path == *p && x.op == op::READ && (x.idx as u64) >= f.op)
            });
            if during {
                ex.stats.probe("replaced while being read");
            }
        }
        match wants.iter().position(|w| *w == got) {
            Some(0) => {
                if differ {
                    ex.stats.probe("saw the old version")
                }
                Ok(())
            }
            Some(_) => {
                ex.stats.probe("saw the new version");
                Ok(())
            }
            None => {
                let d = |w: &Delivered| same(&got, w).err().map_or(String::new(), |v| v.detail);
                let at: Vec<String> = o.fired.iter().filter(|f| run.faults[f.fault as usize].kind == FaultKind::Replace).map(|f| format!("{} replaced before operation {}", run.faults[f.fault as usize].path.clone().unwrap_or_default(), f.op)).collect();
                violation(
                    "mixture",
                    format!("{}: {}; the result is neither that of the old version ({}) nor of the new one ({})", run.procs[0].argv.join(" "), at.join(", "), d(&wants[0]), d(wants.last().unwrap())),
                )
            }
        }
    }
}
