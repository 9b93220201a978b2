//! A make-style incremental build equals a clean build.
use super::*;
use crate::genpatch::{per_rules, relative, s as ys, yaml, Map, Y};
use crate::gensvd::{device, Dev, Opt};
use serde::{Deserialize, Serialize};

pub struct P;

const SITE: &str = "/w/site";

/// One invocation of make.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Build {
    /// the recipe that meets the faults, and its environment
    at: u64,
    faults: Vec<Fault>,
    alloc_fail: Option<u64>,
    ncpu: u64,
    seed: u64,
    keep_going: bool,
}

struct World {
    roots: Vec<String>,
    svds: Vec<String>,
    /// the SVD that a root copies a peripheral from, or ""
    copies: Vec<String>,
    /// does the patched file depend on the .d file (as in stm32-rs) or on what it lists?
    via_d: bool,
}

fn stem(p: &str) -> String {
    let b = p.rsplit('/').next().unwrap();
    b.split('.').next().unwrap().to_string()
}
fn dep_file(root: &str) -> String {
    format!("/w/deps/{}.d", stem(root))
}
fn out_file(root: &str) -> String {
    format!("/w/out/{}.svd", stem(root))
}

fn listed(img: &Image, d: &str) -> Option<Vec<String>> {
    let t = String::from_utf8_lossy(img.get(d)?).into_owned();
    // make reads "target: prerequisites", lines that end in nothing else
    let (_, r) = t.split_once(':')?;
    Some(r.split_whitespace().map(|s| s.to_string()).collect())
}

/// Does make remake it? Prerequisites that are gone count as newer.
fn stale(img: &Image, target: &str, pre: &[String]) -> bool {
    let Some(t) = img.0.get(target) else { return true };
    pre.iter().any(|p| match img.real(p).and_then(|p| img.0.get(&p)) {
        None => true,
        Some(n) => n.mtime > t.mtime,
    })
}

struct Make<'a> {
    h: &'a mut Hist,
    ex: &'a mut Exec,
    bin: &'a str,
    b: &'a Build,
    recipes: u64,
    log: Vec<String>,
    stuck: bool,
}

impl Make<'_> {
    fn recipe(&mut self, a: &[String], target: Option<&str>) -> bool {
        let mut argv = vec!["svdtools".to_string()];
        argv.extend(a.iter().cloned());
        let mut spec = plain(&ProcSpec { argv, env: vec![], cwd: "/w".into() });
        spec.cfg.pid_base = 500 + self.b.seed % 1000 + self.recipes * 3;
        if self.b.ncpu > 1 {
            spec.cfg.ncpu = self.b.ncpu;
            spec.cfg.sched_mode = 1;
            spec.cfg.sched_p = 3000;
            spec.cfg.sched_seed = self.b.seed;
        }
        if self.b.at == self.recipes {
            spec.faults = self.b.faults.clone();
            if let Some(k) = self.b.alloc_fail {
                spec.cfg.alloc_fail_from = k;
                spec.cfg.alloc_fail_to = k + 2;
            }
        }
        self.recipes += 1;
        let o = self.h.run(self.ex, self.bin, &spec);
        if o.verdict != Verdict::Ok {
            self.stuck = true;
        }
        let ok = o.procs[0].ok();
        self.log.push(format!("{} -> {}", a.join(" "), o.procs[0].show()));
        if !ok {
            if let Some(t) = target {
                // .DELETE_ON_ERROR
                self.h.image.0.remove(t);
            }
        }
        ok
    }
    fn build(&mut self, w: &World) -> bool {
        let mut good = true;
        for k in 0..w.roots.len() {
            let (root, svd) = (&w.roots[k], &w.svds[k]);
            let (d, out) = (dep_file(root), out_file(root));
            let mut pre = vec![root.clone()];
            pre.extend(listed(&self.h.image, &d).unwrap_or_default());
            if stale(&self.h.image, &d, &pre) && !self.recipe(&["makedeps".into(), root.clone(), d.clone()], Some(&d)) {
                good = false;
                if self.b.keep_going {
                    continue;
                }
                return false;
            }
            let mut pre = vec![root.clone(), svd.clone()];
            pre.extend(w.copies.get(k).filter(|c| !c.is_empty()).cloned());
            if w.via_d {
                pre.push(d.clone());
            } else {
                pre.extend(listed(&self.h.image, &d).unwrap_or_default());
            }
            if stale(&self.h.image, &out, &pre) && !self.recipe(&["patch".into(), root.clone(), out.clone()], Some(&out)) {
                good = false;
                if !self.b.keep_going {
                    return false;
                }
            }
        }
        if !good {
            return false;
        }
        let mut a = vec!["html".to_string(), SITE.into()];
        a.extend(w.roots.iter().map(|r| out_file(r)));
        self.recipe(&a, None)
    }
}

/// Contents of a patch file: rules for its own peripherals, and includes.
fn content(r: &mut Rng, dev: &Dev, files: &[String], k: usize, svd: &str, copy: Option<(&str, &Dev)>) -> String {
    let mut m: Map = vec![];
    if k == 0 {
        m.push(("_svd".into(), ys(relative(&files[0], svd))));
        if let Some((c, d)) = copy {
            let p = r.pick(&d.pers).name.clone();
            m.push(("_copy".into(), Y::M(vec![("COPIED".into(), Y::M(vec![("from".into(), ys(format!("{}:{p}", relative(&files[0], c))))]))])));
        }
    }
    let n = files.len();
    let mut inc = vec![];
    for j in k + 1..n {
        if r.chance(if k == 0 { 3 } else { 1 }, 5) {
            inc.push(j);
        }
    }
    let mine: Vec<_> = dev.pers.iter().enumerate().filter(|(i, p)| i % n == k && p.derived.is_none()).map(|x| x.1).collect();
    for p in &mine {
        if r.chance(4, 5) {
            let mut rules = per_rules(r, p);
            if !rules.is_empty() {
                // at times the include hangs below the peripheral
                if !inc.is_empty() && r.chance(1, 6) {
                    let empty: Vec<usize> = inc.iter().copied().filter(|j| dev.pers.iter().enumerate().all(|(i, p)| i % n != *j || p.derived.is_some())).collect();
                    if let Some(j) = empty.first() {
                        rules.push(("_include".into(), Y::L(vec![ys(relative(&files[k], &files[*j]))])));
                        inc.retain(|x| x != j);
                    }
                }
                m.push((p.name.clone(), Y::M(rules)));
            }
        }
    }
    if k == 0 {
        m.push(("_modify".into(), Y::M(vec![("version".into(), ys(format!("{}.{}", r.below(9), r.below(1000))))])));
    }
    if !inc.is_empty() {
        let l: Vec<Y> = inc.iter().map(|j| ys(relative(&files[k], &files[*j]))).collect();
        m.push(("_include".into(), Y::L(l)));
    }
    if m.is_empty() {
        return if r.chance(1, 2) { String::new() } else { format!("# nothing {}\n{{}}\n", r.below(1000)) };
    }
    format!("# edition {}\n{}", r.below(1_000_000), yaml(&m))
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn count(&self) -> (u64, u64) {
        (2600, 36400)
    }
    fn rule(&self) -> &'static str {
        "histories of 4 to 16 steps over 1 or 2 targets with up to 5 patch files each: edits of rules, include lists, device files, removals, broken files and repairs, touches, time passing, builds (some of their recipes killed, failing, or short of memory or disk), with 1 ns to 2 s time stamps; in the end one undisturbed build, compared with a clean build of the same sources. Non-trivial: a recipe met a fault, or an incremental build skipped something."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["builds compared", "recipe skipped", "recipe killed or failed", "include list changed", "html skipped a page", "shared include", "depends on the .d file", "peripheral copied from another SVD"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "make is a model of its rules: a target is remade when it is missing or a prerequisite is newer or gone; the target of a failed recipe is deleted (.DELETE_ON_ERROR)",
            "edits are newer than the time stamps of earlier builds, as make itself requires; links are not retargeted",
        ]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let mut img = Image::skeleton();
        for d in ["/w/deps", "/w/out", "/w/svd", "/w/dev"] {
            img.dir(d);
        }
        let nt = r.range(1, 2) as usize;
        let mut devs = vec![];
        let mut files: Vec<Vec<String>> = vec![];
        let mut roots = vec![];
        let mut svds = vec![];
        let shared = r.chance(1, 3);
        for t in 0..nt {
            let o = Opt { pers: r.range(2, 4), regs: r.range(1, 3), fields: 3, pad: 0 };
            let d = device(r, &o, ["One", "Two"][t]);
            let svd = format!("/w/svd/chip{t}.svd");
            img.file(&svd, d.xml());
            let n = r.range(1, 4) as usize;
            let mut f = vec![format!("/w/dev/t{t}.yaml")];
            for k in 0..n {
                f.push(if shared && k == n - 1 { "/w/dev/common/shared.yaml".to_string() } else { format!("/w/dev/{}t{t}f{k}.yaml", ["", "sub/", "common/"][k % 3]) });
            }
            roots.push(f[0].clone());
            svds.push(svd);
            files.push(f);
            devs.push(d);
        }
        let copying: Vec<bool> = (0..nt).map(|_| nt > 1 && r.chance(1, 4)).collect();
        let copy = |t: usize| copying[t].then(|| (svds[(t + 1) % nt].as_str(), &devs[(t + 1) % nt]));
        for t in 0..nt {
            for (k, f) in files[t].iter().enumerate() {
                let c = if f.ends_with("shared.yaml") { "# shared\n{}\n".to_string() } else { content(r, &devs[t], &files[t], k, &svds[t], copy(t)) };
                img.file(f, c);
            }
        }
        let gran = *r.pick(&[1u64, 1_000_000, 1_000_000_000, 2_000_000_000]);
        // let the time stamps of inputs be in the past
        let mut steps = vec![];
        let act = |r: &mut Rng, faulty: bool| {
            let mut b = Build { at: u64::MAX, faults: vec![], alloc_fail: None, ncpu: r.range(1, 3), seed: r.below(1 << 30), keep_going: r.chance(1, 4) };
            if faulty {
                b.at = r.below(4);
                let top = *r.pick(&[10, 40, 300]);
                let k = r.range(1, top);
                match r.below(6) {
                    0 | 1 => b.faults.push(Fault::at(*r.pick(&[FaultKind::KillBefore, FaultKind::KillAfter, FaultKind::KillMid]), k, -1)),
                    2 => {
                        let o = *r.pick(&[op::READ, op::OPEN, op::WRITE, op::OUT, op::STAT, op::REALPATH, op::RENAME]);
                        let e = error_for(r, o).unwrap();
                        let mut f = Fault::at(FaultKind::Error, k, e);
                        f.to = u64::MAX;
                        f.ops = bit(o);
                        f.max = *r.pick(&[0, 1]);
                        b.faults.push(f);
                    }
                    3 => b.faults.push(Fault::at(FaultKind::DiskFull, 1, *r.pick(&[0, 10, 500, 4000]))),
                    4 => b.alloc_fail = Some(r.range(1, 3000)),
                    _ => b.faults.push(Fault::any(FaultKind::Short, 0, 30000, 0)),
                }
            }
            Step::Act { name: "build".into(), arg: serde_json::to_string(&b).unwrap() }
        };
        let pass = |r: &mut Rng| Step::Advance { ns: 2 * gran + r.below(3 * gran + 10) };
        steps.push(pass(r));
        if r.chance(9, 10) {
            steps.push(act(r, r.0 % 4 == 0));
        }
        let mut broken: BTreeMap<String, String> = BTreeMap::new();
        let mut text: BTreeMap<String, String> = BTreeMap::new();
        for _ in 0..r.range(1, 7) {
            steps.push(pass(r));
            for _ in 0..r.range(1, 3) {
                let t = r.below(nt as u64) as usize;
                let k = r.below(files[t].len() as u64) as usize;
                let f = files[t][k].clone();
                match r.below(12) {
                    0..=5 => {
                        let c = if f.ends_with("shared.yaml") { format!("# shared {}\n{{}}\n", r.below(1000)) } else { content(r, &devs[t], &files[t], k, &svds[t], copy(t)) };
                        broken.remove(&f);
                        text.insert(f.clone(), c.clone());
                        steps.push(Step::Write { path: f, data: c.into() });
                    }
                    6 | 7 => {
                        let new = edit_text(r, img.get(&svds[t]).unwrap());
                        steps.push(Step::Write { path: svds[t].clone(), data: new.into() });
                    }
                    8 => steps.push(Step::Touch { path: f }),
                    9 | 10 => {
                        let good = text.get(&f).cloned().unwrap_or_else(|| String::from_utf8_lossy(img.get(&f).unwrap()).into_owned());
                        broken.insert(f.clone(), good.clone());
                        if r.chance(1, 2) {
                            steps.push(Step::Remove { path: f });
                        } else {
                            steps.push(Step::Write { path: f, data: (good + "\nX: [\n").into() });
                        }
                    }
                    _ => {
                        // products get lost
                        let p = r.pick(&[dep_file(&roots[t]), out_file(&roots[t]), SITE.to_string(), format!("{SITE}/index.html")]).clone();
                        steps.push(Step::Remove { path: p });
                    }
                }
            }
            if r.chance(1, 2) {
                steps.push(pass(r));
            }
            for _ in 0..r.range(0, 2) {
                let faulty = r.chance(1, 2);
                steps.push(act(r, faulty));
            }
        }
        steps.push(pass(r));
        for (p, good) in broken {
            if r.chance(7, 8) {
                steps.push(Step::Write { path: p, data: good.into() });
            }
        }
        steps.push(pass(r));
        steps.push(act(r, false));
        let mut s = Scenario::single("C15", "history", &img, plain(&ProcSpec { argv: vec![], env: vec![], cwd: "/w".into() }));
        s.steps = steps;
        s.facts.insert("copies".into(), (0..nt).map(|t| copy(t).map_or(String::new(), |c| c.0.to_string())).collect());
        s.facts.insert("roots".into(), roots);
        s.facts.insert("svds".into(), svds);
        s.facts.insert("gran".into(), vec![gran.to_string()]);
        s.facts.insert("via_d".into(), vec![r.chance(1, 2).to_string()]);
        s.facts.insert("shared".into(), vec![shared.to_string()]);
        sink(s, ex);
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let gran = s.fact("gran").first().and_then(|g| g.parse().ok()).unwrap_or(1);
        let is = |k: &str| s.fact(k).first().map_or(false, |v| v == "true");
        let w = World { roots: s.fact("roots").to_vec(), svds: s.fact("svds").to_vec(), copies: s.fact("copies").to_vec(), via_d: is("via_d") };
        let mut h = Hist::new(&s.image, gran);
        let mut story = vec![];
        let last = s.steps.iter().rposition(|x| matches!(x, Step::Act { .. }));
        for (n, st) in s.steps.iter().enumerate() {
            let Step::Act { arg, .. } = st else {
                if let Step::Write { path, data } = st {
                    let inc = |d: &[u8]| String::from_utf8_lossy(d).lines().skip_while(|l| !l.contains("_include")).map(|l| l.to_string()).collect::<Vec<_>>();
                    if s.image.get(path).map_or(false, |o| inc(o) != inc(data.bytes())) {
                        ex.stats.probe("include list changed");
                    }
                }
                h.apply(st);
                continue;
            };
            let Ok(b) = serde_json::from_str::<Build>(arg) else { return Ok(()) };
            ex.nontrivial = n > 0;
            let before = h.image.clone();
            let mut m = Make { h: &mut h, ex: &mut *ex, bin: &s.bin, b: &b, recipes: 0, log: vec![], stuck: false };
            let ok = m.build(&w);
            let (log, recipes, stuck) = (m.log, m.recipes, m.stuck);
            ex.nontrivial = false;
            if stuck {
                return Ok(());
            }
            if !ok && b.at != u64::MAX {
                ex.stats.probe("recipe killed or failed");
            }
            if recipes < 1 + 2 * w.roots.len() as u64 {
                ex.stats.probe("recipe skipped");
            }
            story.push(format!("build: {}", log.join("; ")));
            let quiet = b.at == u64::MAX || (b.faults.is_empty() && b.alloc_fail.is_none());
            if Some(n) != last && !(quiet && ok) {
                continue;
            }
            if !quiet {
                continue;
            }
            // the same sources, built from nothing
            let mut img = h.image.clone();
            for r in &w.roots {
                img.0.remove(&dep_file(r));
                img.0.remove(&out_file(r));
            }
            img.remove(SITE);
            let mut hc = Hist::new(&img, gran);
            hc.wall = h.wall + 10 * gran as i64;
            let quietly = Build { at: u64::MAX, ncpu: 1, ..Default::default() };
            let mut m = Make { h: &mut hc, ex: &mut *ex, bin: &s.bin, b: &quietly, recipes: 0, log: vec![], stuck: false };
            let cok = m.build(&w);
            let clog = m.log;
            if !cok {
                if ok {
                    return violation("build succeeds", format!("after step {n} the incremental build succeeds, but a clean one fails: {}; {}", clog.join("; "), story.join(" / ")));
                }
                continue;
            }
            if !ok {
                return violation("build fails", format!("the incremental build fails after step {n}, a clean one does not: {}", story.join(" / ")));
            }
            ex.stats.probe("builds compared");
            if is("shared") {
                ex.stats.probe("shared include");
            }
            if w.copies.iter().any(|c| !c.is_empty()) {
                ex.stats.probe("peripheral copied from another SVD");
            }
            if w.via_d {
                ex.stats.probe("depends on the .d file");
            }
            for r in &w.roots {
                let (d, out) = (dep_file(r), out_file(r));
                if h.image.get(&out) != hc.image.get(&out) {
                    return violation("patched file", format!("after step {n}: {out} differs from a clean build: {}; {}", first_diff(h.image.get(&out).unwrap_or(b""), hc.image.get(&out).unwrap_or(b"")), story.join(" / ")));
                }
                let set = |i: &Image| listed(i, &d).unwrap_or_default().into_iter().collect::<BTreeSet<_>>();
                if set(&h.image) != set(&hc.image) {
                    return violation("dependencies", format!("after step {n}: {d} lists {:?}, a clean build {:?}; {}", set(&h.image), set(&hc.image), story.join(" / ")));
                }
            }
            for (f, node) in hc.image.under(SITE) {
                if node.kind != Kind::File || f.starts_with('.') {
                    continue;
                }
                let p = format!("{SITE}/{f}");
                if h.image.get(&p) != Some(node.data.bytes()) {
                    return violation("page", format!("after step {n}: {p} {}; {}", h.image.get(&p).map_or("is missing".into(), |d| format!("differs from a clean build: {}", first_diff(d, node.data.bytes()))), story.join(" / ")));
                }
                if before.0.get(&p).map(|n| n.mtime) == h.image.0.get(&p).map(|n| n.mtime) {
                    ex.stats.probe("html skipped a page");
                }
            }
        }
        Ok(())
    }
    fn sane(&self, s: &Scenario) -> bool {
        // every edit is separated from the builds around it by time passing
        let gran: u64 = s.fact("gran").first().and_then(|g| g.parse().ok()).unwrap_or(1);
        let mut fresh = true;
        for st in &s.steps {
            match st {
                Step::Advance { ns } => fresh = fresh || *ns >= 2 * gran,
                Step::Act { .. } => fresh = false,
                Step::Write { .. } | Step::Touch { .. } if !fresh => return false,
                _ => {}
            }
        }
        s.fact("roots").len() == s.fact("svds").len()
    }
}
