//! Calls of the functions of the Python package, one after another in one interpreter.
use super::py::{case_of, patched, PY};
use super::*;
use crate::genpatch::relative;

pub struct P;

type Plan = Vec<Vec<String>>;
/// how it ended, what it returned and printed, the output file, the working directory
type Results = Vec<Option<(String, String, Option<String>, String)>>;

fn run_of() -> RunSpec {
    plain(&ProcSpec { argv: ["svdlib", "/plan", "/results"].iter().map(|s| s.to_string()).collect(), env: vec![], cwd: "/w".into() })
}
/// One call per line.
fn with_plan(img: &Image, plan: &Plan) -> Image {
    let mut i = img.clone();
    i.file("/plan", plan.iter().map(|c| serde_json::to_string(c).unwrap() + "\n").collect::<String>());
    i
}
fn plan_of(img: &Image) -> Option<Plan> {
    let t = std::str::from_utf8(img.get("/plan")?).ok()?;
    let p: Plan = t.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).ok()).collect::<Option<_>>()?;
    let n = |c: &Vec<String>| match c[0].as_str() {
        "put" | "set" | "patch" | "mmap" => c.len() == 3,
        "makedeps" | "interrupts" => c.len() == 4,
        "del" | "cd" => c.len() == 2,
        "cli" => c.len() > 2,
        _ => false,
    };
    p.iter().all(|c| !c.is_empty() && n(c)).then_some(p)
}
fn results(o: &Outcome) -> Option<Results> {
    serde_json::from_slice(o.files.get("/results")?.node.data.bytes()).ok()
}
fn setup(c: &[String]) -> bool {
    matches!(c[0].as_str(), "put" | "set" | "del" | "cd")
}
fn text(img: &Image, p: &str) -> Option<String> {
    String::from_utf8(img.get(p)?.to_vec()).ok()
}
/// Of the same length.
fn other_digit(r: &mut Rng, old: &str) -> Option<String> {
    let b = old.as_bytes();
    // not in names of files and not the SVD
    let at: Vec<usize> = (1..b.len()).filter(|i| b[*i].is_ascii_digit() && b[*i - 1] == b' ').collect();
    if at.is_empty() {
        return None;
    }
    let mut v = b.to_vec();
    let k = *r.pick(&at);
    v[k] = if v[k] == b'0' && v.get(k + 1) == Some(&b'x') { b'0' } else { b'0' + (v[k] - b'0' + 1) % 8 };
    String::from_utf8(v).ok()
}
/// Other interrupts or addresses.
fn other_device(r: &mut Rng, old: &str) -> Option<String> {
    let (open, close) = *r.pick(&[("<interrupt>", "</interrupt>"), ("<value>", "</value>"), ("<value>", "</value>"), ("<baseAddress>", "</baseAddress>"), ("<addressOffset>", "</addressOffset>"), ("<register>", "</register>")]);
    let at: Vec<usize> = old.match_indices(open).map(|x| x.0).collect();
    if at.is_empty() {
        return None;
    }
    let from = *r.pick(&at);
    let to = from + old[from..].find(close)?;
    if open == "<interrupt>" || open == "<register>" {
        return Some(format!("{}{}", &old[..from], &old[to + close.len()..]));
    }
    let mut v = old.as_bytes().to_vec();
    let k = (from..to).rev().find(|k| v[*k].is_ascii_digit())?;
    v[k] = b'0' + (v[k] - b'0' + if r.chance(1, 2) { 1 } else { 4 }) % 10;
    String::from_utf8(v).ok()
}
/// Another version of a file.
fn edited(r: &mut Rng, old: &str) -> String {
    if r.chance(1, 2) {
        if let Some(t) = if is_xml(old.as_bytes()) { other_device(r, old) } else { other_digit(r, old) } {
            return t;
        }
    }
    let lines: Vec<&str> = old.split_inclusive('\n').collect();
    let inc: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].trim_start().starts_with("- ") && lines[*i].contains(".yaml")).collect();
    match r.below(8) {
        0 | 1 if inc.len() > 1 => {
            let k = *r.pick(&inc);
            lines.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect()
        }
        2 if inc.len() > 1 => {
            let (a, b) = (*r.pick(&inc), *r.pick(&inc));
            let mut v = lines.clone();
            v.swap(a, b);
            v.concat()
        }
        3 => "_x: [broken\n".into(),
        4 if !is_xml(old.as_bytes()) => format!("{old}\nEXTRA{}:\n  _strip: [Q_]\n", r.below(9)),
        _ => String::from_utf8_lossy(&edit_text(r, old.as_bytes())).into_owned(),
    }
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn count(&self) -> (u64, u64) {
        (150, 2100)
    }
    fn rule(&self) -> &'static str {
        "plans of 2 to 12 calls of patch, makedeps, mmap and interrupts (as functions and as click commands) in one Python interpreter, on two roots that share includes and on a second tree under the same relative names; files edited (with the same length and time stamp, too), swapped, broken and deleted between the calls, the working directory changed, and one I/O error or short transfers in half of the runs. Each call that met no error is compared with the same call in an interpreter of its own. Non-trivial: more than one call."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["call after a failed call", "call after an I/O error", "same call again", "file changed between calls", "working directory changed", "two roots", "patch", "makedeps", "mmap", "interrupts", "cli"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["calls of one thread: the interpreter's own thread switches are not under the simulator's control"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let Some(c) = case_of(r, ex, &[Cmd::Patch], true) else { return };
        let Some(set) = c.set.clone() else { return };
        let mut img = c.image.clone();
        let mut dirs = vec!["/w".to_string(), c.proc.cwd.clone()];
        let mut roots = vec![set.root.clone()];
        let mut svds = vec![set.svd.clone()];
        let mut files: Vec<String> = uniq(&set.opened);
        if r.chance(1, 2) {
            // a second tree of the same names
            for (p, n) in c.image.under("/w") {
                let mut n = n;
                if let Ok(t) = std::str::from_utf8(n.data.bytes()) {
                    if t.contains("/w/") {
                        n.data = t.replace("/w/", "/v/").into();
                    }
                }
                img.dir("/v");
                img.0.insert(format!("/v/{p}"), n);
            }
            let other = |p: &String| p.replacen("/w/", "/v/", 1);
            dirs.extend(dirs.clone().iter().map(|d| d.replacen("/w", "/v", 1)));
            roots.push(other(&set.root));
            svds.push(other(&set.svd));
            files.extend(files.clone().iter().map(other));
            for _ in 0..r.range(1, 3) {
                let p = r.pick(&[vec![roots[1].clone(), svds[1].clone()], files.clone()].concat()).clone();
                if let Some(t) = text(&img, &p) {
                    img.file(&p, edited(r, &t));
                }
            }
        }
        for k in 0..roots.len() {
            // another root beside it
            if r.chance(1, 2) {
                let p = roots[k].replacen(".yaml", "_b.yaml", 1);
                if let (Some(t), None) = (text(&img, &roots[k]), img.0.get(&p)) {
                    let t = if r.chance(3, 4) { edited(r, &t) } else { t };
                    img.file(&p, t);
                    roots.push(p);
                }
            }
        }
        let all: Vec<String> = uniq(&[roots.clone(), files.clone(), svds.clone()].concat().into_iter().filter(|p| text(&img, p).is_some()).collect::<Vec<_>>());
        dirs.retain(|d| img.0.contains_key(d));
        for _ in 0..4 {
            let mut now = img.clone();
            let mut cwd = "/w".to_string();
            let mut plan: Plan = vec![];
            let mut calls: Plan = vec![];
            let kinds: &[u64] = *r.pick(&[&[0u64, 1, 2, 3, 4][..], &[0, 0, 1], &[0], &[1], &[2, 3], &[0, 0, 0, 1, 1, 2, 3, 4, 4]]);
            for k in 0..r.range(2, 12) {
                match r.below(12) {
                    0 | 1 => {
                        let p = r.pick(&all).clone();
                        let Some(t) = text(&now, &p) else { continue };
                        let t = edited(r, &t);
                        now.file(&p, t.clone());
                        plan.push(vec![r.pick(&["put", "put", "set"]).to_string(), p, t]);
                    }
                    2 => {
                        // back again
                        let Some(p) = all.iter().find(|p| img.get(p) != now.get(p)) else { continue };
                        let t = text(&img, p).unwrap();
                        now.file(p, t.clone());
                        plan.push(vec![r.pick(&["put", "put", "set"]).to_string(), p.clone(), t]);
                    }
                    3 => {
                        // two files change places
                        let (a, b) = (r.pick(&all).clone(), r.pick(&all).clone());
                        let (Some(s), Some(t)) = (text(&now, &a), text(&now, &b)) else { continue };
                        if a == b || is_xml(s.as_bytes()) != is_xml(t.as_bytes()) {
                            continue;
                        }
                        now.file(&a, t.clone());
                        now.file(&b, s.clone());
                        let how = r.pick(&["put", "set"]).to_string();
                        plan.push(vec![how.clone(), a, t]);
                        plan.push(vec![how, b, s]);
                    }
                    4 if r.chance(1, 2) => {
                        let p = r.pick(&all).clone();
                        if now.get(&p).is_some() {
                            now.remove(&p);
                            plan.push(vec!["del".into(), p]);
                        }
                    }
                    5 => {
                        cwd = r.pick(&dirs).clone();
                        plan.push(vec!["cd".into(), cwd.clone()]);
                    }
                    _ => {}
                }
                if !calls.is_empty() && r.chance(1, 3) {
                    let again = r.pick(&calls).clone();
                    plan.push(again);
                    continue;
                }
                let name = |r: &mut Rng, p: &String| if r.chance(1, 2) { relative(&format!("{cwd}/x"), p) } else { p.clone() };
                let root = r.pick(&roots).clone();
                let svd = r.pick(&svds).clone();
                let deps = format!("{}/{}.d", r.pick(&["/w", "/tmp", &cwd]), r.pick(&["a", "b", &k.to_string()]));
                let patch_out = || patched(&now, &ProcSpec { argv: vec!["svd".into(), "patch".into(), root.clone()], env: vec![], cwd: "/w".into() }).unwrap_or_default();
                let call: Vec<String> = match *r.pick(kinds) {
                    0 => vec!["patch".into(), patch_out(), name(r, &root)],
                    1 => vec!["makedeps".into(), deps.clone(), name(r, &root), name(r, &deps)],
                    2 => vec!["mmap".into(), String::new(), name(r, &svd)],
                    3 => vec!["interrupts".into(), String::new(), name(r, &svd), r.below(2).to_string()],
                    _ => match r.below(5) {
                        0 => vec!["cli".into(), patch_out(), "patch".into(), name(r, &root)],
                        1 => vec!["cli".into(), deps.clone(), "makedeps".into(), name(r, &root), name(r, &deps)],
                        2 => vec!["cli".into(), String::new(), "mmap".into(), name(r, &svd)],
                        3 => vec!["cli".into(), String::new(), "interrupts".into(), name(r, &svd)],
                        _ => vec!["cli".into(), String::new(), "interrupts".into(), "--no-gaps".into(), name(r, &svd)],
                    },
                };
                calls.push(call.clone());
                plan.push(call.clone());
                if r.chance(1, 4) {
                    // what it read changes; ask again
                    let p = if matches!(call[0].as_str(), "mmap" | "interrupts") || r.chance(1, 3) { svd } else if r.chance(1, 2) || files.is_empty() { root } else { r.pick(&files).clone() };
                    let Some(t) = text(&now, &p) else { continue };
                    let t = edited(r, &t);
                    now.file(&p, t.clone());
                    plan.push(vec![r.pick(&["put", "set"]).to_string(), p, t]);
                    plan.push(call);
                }
            }
            if calls.is_empty() {
                continue;
            }
            let i = with_plan(&img, &plan);
            let o = ex.reference(PY, &i, &run_of().procs[0]);
            for m in 0..2 {
                let mut run = run_of();
                shake(r, &mut run.cfg);
                if m > 0 {
                    if r.chance(3, 4) {
                        let Some(x) = pick_rec(r, &o.log, |x| !matches!(x.op, op::CLOSE | op::GETCWD | op::ERRW) && !["/plan", "/results"].contains(&x.path.as_str()) && !x.path.starts_with("/mark")) else { continue };
                        let Some(e) = error_for(r, x.op) else { continue };
                        let mut f = Fault::at(FaultKind::Error, x.idx as u64, e);
                        f.ops = bit(x.op);
                        f.path = Some(x.path.rsplit('/').next().unwrap_or("").to_string());
                        run.faults.push(f);
                    }
                    if r.chance(1, 3) {
                        run.faults.push(Fault::any(FaultKind::Short, bit(op::READ) | bit(op::WRITE), *r.pick(&[65536, 20000]), *r.pick(&[0, 100, 1000])));
                    }
                }
                let mut s = Scenario::single("C20", if m > 0 { "faults" } else { "calls" }, &i, run);
                s.bin = PY.into();
                if !sink(s, ex) {
                    return;
                }
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let Some(plan) = plan_of(&s.image) else { return Ok(()) };
        ex.nontrivial = plan.iter().filter(|c| !setup(c)).count() > 1;
        let run = s.run();
        let o = ex.go(&s.bin, &s.image, run);
        if o.verdict != Verdict::Ok {
            return stuck(run, &o);
        }
        // which calls met an error?
        let mut at: Option<usize> = None;
        let mut hit = vec![false; plan.len()];
        for x in &o.log {
            if let Some(k) = x.path.strip_prefix("/mark/") {
                if x.op == op::OPEN {
                    at = Some(k.parse().unwrap_or(plan.len()));
                }
            } else if x.faulted != 0 && x.err != 0 {
                match at {
                    Some(k) if k < plan.len() && !setup(&plan[k]) => hit[k] = true,
                    _ => return Ok(()),
                }
            }
        }
        let Some(got) = results(&o) else {
            if hit.contains(&true) {
                return Ok(());
            }
            // can it be the plan's own fault?
            let r = ex.reference(&s.bin, &s.image, &run.procs[0]);
            if results(&r).is_none() {
                let mut i = s.image.clone();
                for c in &plan {
                    let there = match c[0].as_str() {
                        "put" => i.real(&c[1][..c[1].rfind('/').unwrap_or(0)]).is_some(),
                        "set" | "del" | "cd" => i.real(&c[1]).is_some(),
                        _ => continue,
                    };
                    if !there {
                        return Ok(());
                    }
                    match c[0].as_str() {
                        "put" | "set" => i.file(&c[1], c[2].clone()),
                        "del" => i.remove(&c[1]),
                        _ => {}
                    }
                }
            }
            return violation("no results", format!("python: the calls did not all return ({}: {}): {plan:?}", o.procs[0].show(), String::from_utf8_lossy(&o.procs[0].err).lines().last().unwrap_or("")));
        };
        let mut img = s.image.clone();
        let mut cd: Plan = vec![];
        for (k, c) in plan.iter().enumerate() {
            match c[0].as_str() {
                "put" | "set" => {
                    img.file(&c[1], c[2].clone());
                    ex.stats.probe("file changed between calls");
                }
                "del" => img.remove(&c[1]),
                "cd" => {
                    cd = vec![c.clone()];
                    ex.stats.probe("working directory changed");
                }
                kind => {
                    ex.stats.probe(["patch", "makedeps", "mmap", "interrupts", "cli"].iter().find(|x| **x == kind).unwrap());
                    if plan[..k].contains(c) {
                        ex.stats.probe("same call again");
                    }
                    let mut alone = cd.clone();
                    alone.push(c.clone());
                    let r = ex.reference(&s.bin, &with_plan(&img, &alone), &run.procs[0]);
                    let Some(Some(Some(want))) = results(&r).map(|v| v.last().cloned()) else { return Ok(()) };
                    let Some(Some(g)) = got.get(k) else { return violation("no results", format!("python: call {k} has no result: {plan:?}")) };
                    if hit[k] {
                        continue;
                    }
                    if plan[..k].iter().any(|d| !setup(d) && d.len() > 2 && d[2] != c[2]) {
                        ex.stats.probe("two roots");
                    }
                    if hit[..k].iter().any(|h| *h) {
                        ex.stats.probe("call after an I/O error");
                    }
                    if got[..k].iter().flatten().any(|g| g.0 != "ok") {
                        ex.stats.probe("call after a failed call");
                    }
                    let tell = |what: &str, d: String| {
                        let short: Vec<String> = plan.iter().map(|c| c.iter().map(|a| a.chars().take(60).collect::<String>()).collect::<Vec<_>>().join(" ")).collect();
                        violation(what, format!("python: call {k}, {}, of {short:?}: {d}; {}", c[2..].join(" "), c02::faults(run, &o)))
                    };
                    if g.0 != want.0 {
                        return tell("outcome", format!("ends with {:?} instead of {:?}", clip(g.0.as_bytes()), clip(want.0.as_bytes())));
                    }
                    if g.1 != want.1 {
                        return tell("value", first_diff(g.1.as_bytes(), want.1.as_bytes()));
                    }
                    if g.3 != want.3 {
                        return tell("directory", format!("the working directory is {} instead of {}", g.3, want.3));
                    }
                    // the file it was to make, unless a relative name leads elsewhere by now
                    let makes = r.log.iter().any(|x| x.op == op::OPEN && x.err == 0 && x.flags & 3 != 0 && x.path == c[1]);
                    if g.0 == "ok" && makes && g.2 != want.2 {
                        return tell("file", format!("{}: {}", c[1], first_diff(g.2.as_deref().unwrap_or("").as_bytes(), want.2.as_deref().unwrap_or("").as_bytes())));
                    }
                }
            }
        }
        Ok(())
    }
}
