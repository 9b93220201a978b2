//! The Python package: cases for its commands, and the four properties of it.
use super::*;
use crate::genpatch::relative;

pub const PY: &str = "python0";
const CMDS: &[Cmd] = &[Cmd::Patch, Cmd::Patch, Cmd::Patch, Cmd::Makedeps, Cmd::Makedeps, Cmd::Mmap, Cmd::Interrupts];
const WRITERS: &[Cmd] = &[Cmd::Patch, Cmd::Patch, Cmd::Makedeps];

/// Where `svd patch` puts its output.
pub fn patched(img: &Image, p: &ProcSpec) -> Option<String> {
    let root = img.real(&abs(&p.cwd, &p.argv[2]))?;
    let text = String::from_utf8_lossy(img.get(&root)?).into_owned();
    let svd = text.lines().find_map(|l| l.trim_start_matches('\u{feff}').strip_prefix("_svd:"))?.trim().trim_matches(['"', '\'']).to_string();
    let base = root[..root.rfind('/')?].to_string();
    let path = abs(&base, &svd);
    // the directory may be a symbolic link
    let k = path.rfind('/')?;
    let dir = img.real(&path[..k]).unwrap_or(path[..k].into());
    let dir = if dir == "/" { String::new() } else { dir };
    let out = format!("{dir}{}.patched", &path[k..]);
    Some(img.real(&out).unwrap_or(out))
}

pub fn case(r: &mut Rng, ex: &mut Exec, cmds: &[Cmd]) -> Option<Case> {
    case_of(r, ex, cmds, false)
}
pub fn case_of(r: &mut Rng, ex: &mut Exec, cmds: &[Cmd], small: bool) -> Option<Case> {
    for _ in 0..6 {
        let light = r.chance(2, 3) || small;
        // now and then what only the Rust tool knows
        crate::vignette::PYTHON.set(r.chance(9, 10));
        let mut c = generate(r, ex, cmds, &GenOpt { light, ..Default::default() });
        crate::vignette::PYTHON.set(false);
        if c.proc.argv.iter().chain([&c.proc.cwd]).any(|a| a.contains(ODD) || a.contains('%')) {
            continue;
        }
        c.proc.argv[0] = "svd".into();
        c.once.clear();
        c.dir = None;
        if c.cmd == Cmd::Patch {
            c.proc.argv.truncate(3);
            c.out = patched(&c.image, &c.proc);
            if c.out.is_none() {
                continue;
            }
        }
        let size = |i: &Image| i.0.iter().filter(|x| x.1.kind == Kind::File).map(|x| x.1.data.bytes().len()).sum::<usize>();
        if small && size(&c.image) > 60_000 {
            continue;
        }
        // the package knows less than the Rust tool: mostly such cases as it can handle
        if r.chance(4, 5) && !ex.reference(PY, &c.image, &c.proc).procs[0].ok() {
            continue;
        }
        return Some(c);
    }
    None
}

/// The files a run opened to read them.
fn read_by(o: &Outcome) -> Vec<String> {
    uniq(&o.log.iter().filter(|x| x.op == op::OPEN && x.err == 0 && x.flags & 3 == 0 && x.path.starts_with('/')).map(|x| x.path.clone()).collect::<Vec<_>>())
}
fn py(mut s: Scenario) -> Scenario {
    s.bin = PY.into();
    s
}
fn tell(run: &RunSpec, o: &Outcome, v: Violation) -> Violation {
    Violation { class: v.class, detail: format!("python: {}: {}; {}", run.procs[0].argv.join(" "), v.detail, c02::faults(run, o)) }
}

// ---------------------------------------------------------------- exit status 0 means delivered
pub struct Complete;
impl Prop for Complete {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn count(&self) -> (u64, u64) {
        (1100, 15000)
    }
    fn rule(&self) -> &'static str {
        "patch, makedeps, mmap and interrupts of the Python package on generated trees with previous outputs; one to three faults per run: errors (once, at random, or persistent) on any operation, full disks, broken or full standard output, short transfers. Non-trivial: at least one fault fired."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["fault reported", "fault survived", "disk full", "stdout error", "missing input", "include cycle"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["errors of close() are not injected", "one interpreter and one version of each library (the installed ones)"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let Some(mut c) = case(r, ex, CMDS) else { return };
        let o = ex.reference(PY, &c.image, &c.proc);
        if !o.procs[0].ok() {
            return;
        }
        litter(r, &mut c, Some(&o));
        let o = ex.reference(PY, &c.image, &c.proc);
        let reads = read_by(&o);
        if r.chance(1, 2) && !reads.is_empty() {
            // something it needs is not there, or not readable, or a directory
            let mut d = c.clone();
            let p = r.pick(&reads).clone();
            match r.below(4) {
                0 | 1 => d.image.remove(&p),
                2 => d.image.0.get_mut(&p).unwrap().mode = 0,
                _ => {
                    d.image.remove(&p);
                    d.image.dir(&p);
                }
            }
            let s = py(scenario("C16", "missing", &d, plain(&d.proc))).set("what", vec![p]);
            if !sink(s, ex) {
                return;
            }
        }
        if let (Some(set), true) = (&c.set, r.chance(1, 6)) {
            // includes that come back to themselves
            let mut d = c.clone();
            let to = r.pick(&[set.root.clone(), set.opened.first().unwrap_or(&set.root).clone()]).clone();
            let from = set.opened.last().unwrap_or(&set.root).clone();
            if let Some(t) = d.image.get(&from).map(|b| String::from_utf8_lossy(b).into_owned()) {
                let twice = if r.chance(1, 2) { format!("  - {to}\n") } else { String::new() };
                let t = if t.contains("_include:") { t.replacen("_include:\n", &format!("_include:\n  - {to}\n{twice}"), 1) } else { format!("_include:\n  - {to}\n{twice}{t}") };
                d.image.file(&from, t);
                if !sink(py(scenario("C16", "cycle", &d, plain(&d.proc))), ex) {
                    return;
                }
            }
        }
        for _ in 0..8 {
            let mut run = plain(&c.proc);
            shake(r, &mut run.cfg);
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                match r.below(10) {
                    0..=4 => {
                        let Some(x) = pick_rec(r, &o.log, |x| !matches!(x.op, op::CLOSE | op::GETCWD | op::ERRW)) else { continue };
                        let Some(e) = error_for(r, x.op) else { continue };
                        let mut f = Fault::at(FaultKind::Error, x.idx as u64, e);
                        if r.chance(1, 2) {
                            f.from = 1;
                            f.to = u64::MAX;
                            f.ops = bit(x.op);
                            if x.path.starts_with('/') && r.chance(3, 4) {
                                f.path = Some(x.path.rsplit('/').next().unwrap_or("").to_string());
                            }
                            f.max = *r.pick(&[0, 1, 1, 2]);
                            f.prob = *r.pick(&[65536, 65536, 30000, 3000]);
                        }
                        run.faults.push(f);
                    }
                    5 | 6 => {
                        let k = r.range(1, o.c.ioop);
                        let mut f = Fault::at(FaultKind::DiskFull, k, *r.pick(&[0, 1, 100, 500, 2000, 8192, 40000]));
                        if r.chance(1, 2) {
                            f.from = 1;
                            f.to = 1;
                        }
                        run.faults.push(f);
                    }
                    7 => {
                        let e = error_for(r, op::OUT).unwrap();
                        let mut f = Fault::any(FaultKind::Error, bit(op::OUT), 65536, e);
                        f.max = *r.pick(&[0, 1]);
                        run.faults.push(f);
                    }
                    8 => run.faults.push(Fault::any(FaultKind::Short, bit(op::READ) | bit(op::WRITE) | bit(op::OUT), *r.pick(&[65536, 20000]), *r.pick(&[0, 100, 1000]))),
                    _ => {
                        let mut f = Fault::any(FaultKind::Error, bit(op::READ) | bit(op::WRITE) | bit(op::OUT) | bit(op::OPEN), *r.pick(&[3000, 20000]), libc::EINTR as i64);
                        f.max = 500;
                        run.faults.push(f);
                    }
                }
            }
            if !sink(py(scenario("C16", "faults", &c, run)), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let o = ex.go(&s.bin, &s.image, run);
        if o.verdict != Verdict::Ok {
            return stuck(run, &o);
        }
        for f in o.fired.iter().take(20) {
            match run.faults[f.fault as usize].kind {
                FaultKind::DiskFull => ex.stats.probe("disk full"),
                FaultKind::Error if o.log.iter().any(|x| x.idx as u64 == f.op && x.op == op::OUT) => ex.stats.probe("stdout error"),
                _ => {}
            }
        }
        if s.shape == "missing" {
            ex.stats.probe("missing input");
            ex.nontrivial = true;
        }
        if s.shape == "missing" && o.procs[0].ok() {
            return Err(tell(run, &o, Violation { class: "unreported missing".into(), detail: format!("exit 0 although {} is missing or cannot be read", s.fact("what")[0]) }));
        }
        if s.shape == "cycle" {
            ex.stats.probe("include cycle");
            ex.nontrivial = true;
        }
        if o.procs[0].signal().is_some() {
            return Err(tell(run, &o, Violation { class: "crash".into(), detail: format!("dies from {}", o.procs[0].show()) }));
        }
        let on_output = o.log.iter().any(|x| matches!(x.op, op::OUT | op::ERRW) && x.err != 0);
        if !o.procs[0].ok() {
            ex.stats.probe("fault reported");
            if o.procs[0].exit().is_some() && o.procs[0].err.is_empty() && !on_output {
                return Err(tell(run, &o, Violation { class: "silent".into(), detail: format!("{} without a message", o.procs[0].show()) }));
            }
            return Ok(());
        }
        if !o.fired.is_empty() {
            ex.stats.probe("fault survived");
        }
        let r = ex.reference(&s.bin, &s.image, &run.procs[0]);
        if !r.procs[0].ok() {
            return Ok(());
        }
        let (got, want) = (delivered(s, &o), delivered(s, &r));
        let unreported = |v: Violation| tell(run, &o, Violation { class: format!("unreported {}", v.class), detail: format!("exit 0 although {}", v.detail) });
        if s.fact("out").iter().any(|p| !want.files.contains_key(p)) {
            // the command is to make this file
            return Err(unreported(Violation { class: "missing".into(), detail: format!("{:?} is not written even without faults", s.fact("out")) }));
        }
        if got.stdout != want.stdout {
            return Err(unreported(Violation { class: "stdout".into(), detail: format!("standard output is not complete: {}", first_diff(&got.stdout, &want.stdout)) }));
        }
        same_files(&got, &want, false).map_err(unreported)
    }
}

// ---------------------------------------------------------------- what a run may touch
pub struct Contained;
impl Prop for Contained {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn count(&self) -> (u64, u64) {
        (1100, 15000)
    }
    fn rule(&self) -> &'static str {
        "the commands of the Python package on generated trees, with a previous output or not: undisturbed, with spoiled inputs, and with errors, kills, full disks and changing clocks at any operation. Only the output may change, and it may not before the last input was read. Non-trivial: the run failed or a fault fired."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["failed on bad input", "failed on read error", "killed", "failed while writing", "succeeded", "previous output present"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let cmds = if r.chance(3, 4) { WRITERS } else { CMDS };
        let Some(mut c) = case(r, ex, cmds) else { return };
        let o = ex.reference(PY, &c.image, &c.proc);
        litter(r, &mut c, Some(&o));
        let o = ex.reference(PY, &c.image, &c.proc);
        // inputs: what the command has to read in this tree
        c.inputs = uniq(&c.inputs.iter().cloned().chain(read_by(&o)).filter(|p| c.image.get(p).is_some() && c.out.as_ref() != Some(p)).collect::<Vec<_>>());
        if !sink(py(scenario("C17", "undisturbed", &c, plain(&c.proc))), ex) {
            return;
        }
        for _ in 0..3 {
            let mut d = c.clone();
            let what = c01::spoil(r, &mut d);
            let s = py(scenario("C17", "bad input", &d, plain(&d.proc))).set("what", vec![what.into()]);
            if !sink(s, ex) {
                return;
            }
        }
        if o.c.ioop == 0 {
            return;
        }
        for _ in 0..5 {
            let mut run = plain(&c.proc);
            shake(r, &mut run.cfg);
            any_fault(r, &o, &mut run);
            // interpreter and libraries are not to be blamed for what they do without memory
            run.cfg.alloc_fail_from = u64::MAX;
            if run.faults.is_empty() {
                continue;
            }
            if !sink(py(scenario("C17", "faults", &c, run)), ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let o = ex.go(&s.bin, &s.image, run);
        if o.verdict != Verdict::Ok {
            return stuck(run, &o);
        }
        let out = s.fact("out");
        if out.iter().any(|p| s.image.0.contains_key(p)) {
            ex.stats.probe("previous output present");
        }
        let ok = o.procs[0].ok();
        let killed = o.procs[0].signal().is_some();
        ex.stats.probe(match (ok, killed, s.shape.as_str()) {
            (true, ..) => "succeeded",
            (_, true, _) => "killed",
            (_, _, "faults") if o.log.iter().any(|x| x.op == op::WRITE && x.err != 0) => "failed while writing",
            (_, _, "faults") => "failed on read error",
            _ => "failed on bad input",
        });
        ex.nontrivial = !ok;
        // may the output have been begun?
        let early = !ok
            && match s.shape.as_str() {
                "faults" => {
                    let r = ex.reference(&s.bin, &s.image, &run.procs[0]);
                    match last_input(s.fact("inputs"), &r) {
                        Some(last) => {
                            let hard = o.fired.iter().any(|f| matches!(run.faults[f.fault as usize].kind, FaultKind::Error | FaultKind::KillBefore | FaultKind::KillAfter | FaultKind::KillMid));
                            // did it come to the end of its last input?
                            hard && !o.log.iter().any(|x| x.op == last.op && x.err == 0 && x.path == last.path && (x.op != op::READ || last.ret != 0 || x.ret == 0))
                        }
                        None => false,
                    }
                }
                _ => true,
            };
        for (p, how) in touched(&s.image, &o) {
            if !early && out.contains(&p) && how != "removed" {
                continue;
            }
            // killed: a temporary file may be left beside the output
            if !early && killed && how == "created" && out.iter().any(|q| q[..q.rfind('/').unwrap()] == p[..p.rfind('/').unwrap()]) {
                continue;
            }
            // a file another name of the output leads to counts as the output
            if !early && out.iter().any(|q| s.image.real(q).as_ref() == Some(&p)) {
                continue;
            }
            let what = s.fact("what").first().map_or(String::new(), |w| format!(" on {w}"));
            return Err(tell(run, &o, Violation { class: "touched".into(), detail: format!("ended with {}{what}, and {p} was {how}", o.procs[0].show()) }));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- same inputs, same outputs
pub struct Same;
impl Prop for Same {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn count(&self) -> (u64, u64) {
        (1200, 17000)
    }
    fn rule(&self) -> &'static str {
        "the commands of the Python package on generated trees, each run by interpreters that differ in hash seed, locale and time zone, with different clocks, process ids, inode numbers, heap layout, time stamps, file modes, environment variables, earlier outputs (longer, shorter, damaged, equal but for a byte or white space) and short reads and writes; compared with the plain interpreter in a tree without outputs. Non-trivial: every run (its environment differs)."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["other hash seed", "other locale", "other time stamps", "short transfer", "other directory", "failing command", "text beyond ASCII", "earlier output"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["what goes to standard output (mmap, interrupts) may depend on the locale, as that names the encoding the terminal expects; files may not", "an ASCII locale only where all names are ASCII"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let Some(mut c) = case(r, ex, CMDS) else { return };
        if r.chance(1, 3) {
            // text beyond ASCII in a comment or a description
            if let Some(p) = c.set.as_ref().map(|s| if r.chance(1, 2) || s.opened.is_empty() { s.root.clone() } else { r.pick(&s.opened).clone() }) {
                if let Some(t) = c.image.get(&p).map(|d| String::from_utf8_lossy(d).into_owned()) {
                    let t = match r.below(3) {
                        0 => format!("# Gerät für 5 µs\n{t}"),
                        1 => t.replace("clock", "clöck").replace("channel", "chännel ≥ 1"),
                        _ => t.replace(" enable", " Freigabe für").replace("nable", "näble"),
                    };
                    c.image.file(&p, t);
                }
            }
        }
        let o = ex.reference(PY, &c.image, &c.proc);
        if r.chance(1, 3) {
            litter(r, &mut c, Some(&o));
        }
        if r.chance(1, 10) {
            c01::spoil(r, &mut c);
        }
        for _ in 0..6 {
            let mut d = c.clone();
            let mut run = plain(&c.proc);
            shake(r, &mut run.cfg);
            run.cfg.wall0 = *r.pick(&[0, 1_000_000_000, 946_684_800_000_000_000, WALL0 + 1, 4_102_444_800_000_000_000]) + r.below(1_000_000_000);
            run.cfg.mono0 = r.below(1 << 55);
            run.cfg.heap_seed = r.u64();
            run.cfg.readdir_mode = r.below(3);
            let mut env: Vec<&str> = vec!["COLUMNS=40", "TERM=xterm-256color", "PWD=/nowhere", "TMPDIR=/w/none", "HOME=/root", "USER=x", "SOURCE_DATE_EPOCH=0", "NO_COLOR=1", "PYTHONHASHSEED=5"];
            r.shuffle(&mut env);
            run.procs[0].env = env[..r.below(5) as usize].iter().map(|e| e.to_string()).collect();
            if r.chance(1, 3) {
                for n in d.image.0.values_mut() {
                    n.mtime = T0 - r.below(1 << 58) as i64;
                    if n.kind == Kind::File {
                        n.mode = *r.pick(&[0o644, 0o600, 0o755]);
                    }
                }
            }
            if r.chance(1, 3) {
                run.faults.push(Fault::any(FaultKind::Short, bit(op::READ) | bit(op::WRITE) | bit(op::OUT), *r.pick(&[65536, 20000]), *r.pick(&[0, 100, 1000])));
            }
            let elsewhere = c.cmd != Cmd::Makedeps && r.chance(1, 3);
            if elsewhere {
                // from another directory, by another name
                let p = &mut run.procs[0];
                p.argv[2] = abs(&p.cwd, &p.argv[2]);
                p.cwd = r.pick(&["/", "/w", "/tmp", "/home/u"]).to_string();
                if r.chance(1, 2) {
                    p.argv[2] = relative(&format!("{}/x", p.cwd.trim_end_matches('/')), &p.argv[2]);
                }
            }
            let mut earlier = vec![];
            if let Some(q) = c.out.as_ref().filter(|q| c.image.0.get(*q).map_or(true, |n| n.kind == Kind::File) && !read_by(&o).contains(q)) {
                if r.chance(1, 2) {
                    litter(r, &mut d, Some(&o));
                    earlier.push(q.clone());
                }
            }
            let mut s = py(scenario("C18", "environment", &d, run));
            s.facts.insert("earlier".into(), earlier);
            s.facts.insert("plainly".into(), c.proc.argv.iter().chain([&c.proc.cwd]).cloned().collect());
            s.facts.insert("elsewhere".into(), vec![elsewhere.to_string()]);
            let ascii = c.image.0.iter().all(|(p, n)| p.is_ascii() && (n.kind != Kind::Link || n.data.bytes().is_ascii())) && c.proc.argv.iter().all(|a| a.is_ascii());
            s.bin = format!("python{}", if matches!(c.cmd, Cmd::Mmap | Cmd::Interrupts) { r.range(0, 1) } else if ascii { r.range(1, 3) } else { *r.pick(&[1, 3]) });
            s.facts.insert("times".into(), vec![(d.image != c.image).to_string()]);
            if !sink(s, ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        let mut plainly = run.procs[0].clone();
        plainly.env.clear();
        if let Some((cwd, argv)) = s.fact("plainly").split_last() {
            plainly.cwd = cwd.clone();
            plainly.argv = argv.to_vec();
        }
        let mut img = s.image.clone();
        for n in img.0.values_mut() {
            n.mtime = T0;
        }
        for p in s.fact("earlier") {
            img.remove(p);
        }
        let r = ex.reference(PY, &img, &plainly);
        ex.nontrivial = true;
        let o = ex.go(&s.bin, &s.image, run);
        if o.verdict != Verdict::Ok {
            return if r.verdict == Verdict::Ok { stuck(run, &o) } else { Ok(()) };
        }
        for (p, hit) in [
            ("other hash seed", s.bin != PY),
            ("other locale", s.bin == "python2" || s.bin == "python3"),
            ("other time stamps", s.fact("times").first().map_or(false, |t| t == "true")),
            ("short transfer", !o.fired.is_empty()),
            ("other directory", s.fact("elsewhere").first().map_or(false, |t| t == "true")),
            ("failing command", !r.procs[0].ok()),
            ("earlier output", s.fact("earlier").iter().any(|p| s.image.0.contains_key(p))),
            ("text beyond ASCII", s.image.0.iter().any(|(p, n)| p.ends_with(".yaml") && !n.data.bytes().is_ascii())),
        ] {
            if hit {
                ex.stats.probe(p);
            }
        }
        let (mut got, want) = (delivered(s, &o), delivered(s, &r));
        if !r.procs[0].ok() && !s.fact("earlier").is_empty() {
            // the earlier output stays
            got.files = want.files.clone();
        }
        same(&got, &want).map_err(|v| {
            let (seed, env) = PYTHONS[s.bin[6..].parse::<usize>().unwrap_or(0)];
            let m = String::from_utf8_lossy(&o.procs[0].err).lines().last().unwrap_or("").chars().take(120).collect::<String>();
            tell(run, &o, Violation { class: v.class, detail: format!("{} (hash seed {seed}, {env:?}; {m})", v.detail) })
        })
    }
}

// ---------------------------------------------------------------- makedeps names what patch reads
pub struct Deps;
fn listed(b: &[u8], target: &str) -> Option<Vec<String>> {
    let t = String::from_utf8_lossy(b).into_owned();
    let rest = t.strip_prefix(&format!("{target}:"))?;
    if rest.trim_end_matches('\n').contains('\n') {
        return None;
    }
    Some(rest.split_whitespace().map(|s| s.to_string()).collect())
}
impl Prop for Deps {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn count(&self) -> (u64, u64) {
        (750, 10500)
    }
    fn rule(&self) -> &'static str {
        "histories of the Python package: makedeps and patch on a generated patch set, then edits (includes dropped, added and moved, files replaced), and both again over the previous outputs, from other directories and by other names of the root, with short reads. After every makedeps that succeeds, the file names exactly the YAML files that the simulated file system saw patch include. Non-trivial: the list is not empty or the history has an edit."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["files included", "list became shorter", "list became longer", "included through a link", "no includes"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["names without white space (the Python package does not escape them)", "the root file and the SVD are not in the Python package's list, by design"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let Some(c) = case(r, ex, &[Cmd::Makedeps]) else { return };
        let Some(set) = c.set.clone() else { return };
        if c.image.0.keys().any(|k| k.contains(' ') || k.contains(ODD)) {
            return;
        }
        for _ in 0..3 {
            let mut s = py(scenario("C19", "history", &c, plain(&c.proc)));
            s.steps.clear();
            let mut img = c.image.clone();
            for k in 0..r.range(1, 4) {
                if k > 0 {
                    for _ in 0..r.range(1, 2) {
                        let all: Vec<&String> = set.opened.iter().chain([&set.root]).collect();
                        let p = (*r.pick(&all)).clone();
                        let Some(old) = img.get(&p).map(|d| String::from_utf8_lossy(d).into_owned()) else { continue };
                        let lines: Vec<&str> = old.split_inclusive('\n').collect();
                        let inc: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].trim_start().starts_with("- ") && lines[*i].contains(".yaml")).collect();
                        let new = match r.below(5) {
                            3 if !inc.is_empty() => {
                                // another file of the same text, whose name is as long
                                let k = *r.pick(&inc);
                                let name = lines[k].trim_start()[2..].trim().trim_matches(['"', '\'']).to_string();
                                let twin = match name.find(".yaml") {
                                    Some(i) if i > 0 && name.as_bytes()[i - 1].is_ascii_alphanumeric() => format!("{}{}{}", &name[..i - 1], r.pick(&["q", "z", "7"]), &name[i..]),
                                    _ => continue,
                                };
                                let dir = img.real(&p).unwrap_or(p.clone());
                                let dir = &dir[..dir.rfind('/').unwrap()];
                                let to = abs(dir, &twin);
                                let Some(data) = img.real(&abs(dir, &name)).and_then(|q| img.get(&q).map(|d| d.to_vec())) else { continue };
                                if img.0.contains_key(&to) || img.real(&to[..to.rfind('/').unwrap()]).is_none() {
                                    continue;
                                }
                                img.file(&to, data.clone());
                                s.steps.push(Step::Write { path: to, data: data.into() });
                                old.replacen(&name, &twin, 1)
                            }
                            0 if inc.len() > 1 => {
                                let k = *r.pick(&inc);
                                lines.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect::<String>()
                            }
                            1 if !inc.is_empty() => {
                                let k = *r.pick(&inc);
                                let n = format!("/w/extra/n{}.yaml", r.below(3));
                                let pad = &lines[k][..lines[k].len() - lines[k].trim_start().len()];
                                s.steps.push(Step::Write { path: n.clone(), data: format!("# {n}\nEXTRA{}:\n  _strip: [Q_]\n", r.below(9)).into() });
                                img.file(&n, "# new\n");
                                let mut v: Vec<String> = lines.iter().map(|l| l.to_string()).collect();
                                v.insert(k, format!("{pad}- {n}\n"));
                                v.concat()
                            }
                            2 if !old.contains("\n_include:") && !old.starts_with("_include:") => {
                                let n = format!("/w/extra/m{}.yaml", r.below(3));
                                s.steps.push(Step::Write { path: n.clone(), data: "_modify:\n  version: '9'\n".into() });
                                img.file(&n, "# new\n");
                                format!("{old}{}_include:\n  - {n}\n", if old.ends_with('\n') || old.is_empty() { "" } else { "\n" })
                            }
                            _ => format!("{old}# edited {}\n", r.below(100)),
                        };
                        img.file(&p, new.clone());
                        s.steps.push(Step::Write { path: p, data: new.into() });
                    }
                }
                let mut run = plain(&c.proc);
                shake(r, &mut run.cfg);
                if r.chance(1, 2) {
                    run.faults.push(Fault::any(FaultKind::Short, bit(op::READ) | bit(op::WRITE), 65536, *r.pick(&[0, 10, 300])));
                }
                s.steps.push(Step::Run(run));
                if r.chance(1, 3) {
                    s.steps.push(Step::Act { name: "patch".into(), arg: String::new() });
                }
            }
            if !sink(s, ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let mut h = Hist::new(&s.image, 1);
        let mut before: Option<usize> = None;
        for st in &s.steps {
            match st {
                Step::Run(run) => {
                    let p = &run.procs[0];
                    let o = h.run(ex, &s.bin, run);
                    if o.verdict != Verdict::Ok {
                        return stuck(run, &o);
                    }
                    if !o.procs[0].ok() {
                        continue;
                    }
                    let Some(out) = s.fact("out").first() else { continue };
                    let got = o.files.get(out).map(|e| e.node.data.bytes().to_vec()).unwrap_or_default();
                    let bad = |class: &str, d: String| Err(tell(run, &o, Violation { class: class.into(), detail: d }));
                    let Some(names) = listed(&got, &p.argv[3]) else {
                        return bad("form", format!("{out} is not one rule for {}: {:?}", p.argv[3], clip(&got)));
                    };
                    // the patch run, at its own risk: it may fail after the includes
                    let mut q = p.clone();
                    q.argv = vec!["svd".into(), "patch".into(), p.argv[2].clone()];
                    let seen = ex.reference(PY, &h.image, &q);
                    let Some(root) = h.image.real(&abs(&p.cwd, &p.argv[2])) else { continue };
                    let svd = patched(&h.image, &q).unwrap_or_default();
                    let svd = svd.strip_suffix(".patched").unwrap_or("");
                    // it has come past the includes when nothing it tried to open was missing, and the SVD, which it loads first, is there
                    if h.image.real(svd).is_none() || seen.log.iter().any(|x| x.op == op::OPEN && x.err != 0) {
                        continue;
                    }
                    let mut reads = seen.log.iter().filter(|x| x.op == op::OPEN && x.err == 0 && x.flags & 3 == 0 && x.path.starts_with('/')).map(|x| x.path.clone()).collect::<Vec<_>>();
                    // the root itself, once
                    if let Some(k) = reads.iter().position(|x| *x == root) {
                        reads.remove(k);
                    }
                    let reads: Vec<String> = uniq(&reads).into_iter().filter(|p| !h.image.get(p).map_or(false, is_xml)).collect();
                    let mut mine = vec![];
                    for n in &names {
                        match h.image.real(&abs(&p.cwd, n)) {
                            Some(x) => mine.push(x),
                            None => return bad("unknown", format!("{out} names {n}, which does not exist")),
                        }
                        if h.image.real(n).map_or(false, |x| x != *n) {
                            ex.stats.probe("included through a link");
                        }
                    }
                    let mine = uniq(&mine);
                    ex.stats.probe(if reads.is_empty() { "no includes" } else { "files included" });
                    if let Some(b) = before {
                        if mine.len() < b {
                            ex.stats.probe("list became shorter");
                        }
                        if mine.len() > b {
                            ex.stats.probe("list became longer");
                        }
                    }
                    before = Some(mine.len());
                    ex.nontrivial = true;
                    if let Some(m) = reads.iter().find(|x| !mine.contains(x)) {
                        return bad("missing", format!("patch reads {m}, which {out} does not name: {names:?}"));
                    }
                    if let Some(m) = mine.iter().find(|x| !reads.contains(x)) {
                        return bad("extra", format!("{out} names {m}, which patch does not read: {reads:?}"));
                    }
                }
                Step::Act { .. } => {
                    let mut q = s.run().procs[0].clone();
                    q.argv = vec!["svd".into(), "patch".into(), q.argv[2].clone()];
                    let o = h.run(ex, &s.bin, &plain(&q));
                    if o.verdict != Verdict::Ok {
                        return stuck(&plain(&q), &o);
                    }
                }
                st => h.apply(st),
            }
        }
        Ok(())
    }
}
