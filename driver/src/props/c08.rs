//! Nothing but the requested outputs is ever created, changed or removed.
use super::*;

pub struct P;

const HOSTILE: &[&str] = &[
    "../escape", "..", ".", "a/b", "/w/escape", "/tmp/escape", "../../w/svd/p0", "x/../../escape", "../svd/m0.svd", "sub/../../notes",
    "./here", "..\\up", "nul", "index", "UPPER.html", "/", "a/", "../../../../../../w/escape", "-rf", "~", "$HOME",
];

impl Prop for P {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn count(&self) -> (u64, u64) {
        (6000, 84000)
    }
    fn rule(&self) -> &'static str {
        "all commands on generated trees with bystander files beside and inside the output places, devices, peripherals and registers named like paths, output directories that hold the inputs or symbolic links to them, under zero to two faults, kills and schedules; every path of the tree is compared before and after. Non-trivial: a fault struck, threads were preempted, or a name was hostile."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["hostile name", "inputs in the output directory", "killed", "failed", "link in the output directory", "bystander in the output directory", "output in a missing directory"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        let html = r.chance(1, 2);
        let cmds: &[Cmd] = if html { &[Cmd::Html, Cmd::Html, Cmd::Htmlcompare] } else { ALL };
        let distinct = r.chance(3, 4);
        let mut c = generate(r, ex, cmds, &GenOpt { light: true, distinct, ..Default::default() });
        let mut marks: Vec<&str> = vec![];
        let mut bystanders: Vec<String> = vec![];
        let o = ex.reference("svdtools", &c.image, &c.proc);
        // an earlier generation, so that freshness decisions are met too
        if c.cmd == Cmd::Html && r.chance(1, 3) {
            litter(r, &mut c, Some(&o));
        }
        let mut missing = false;
        if let (Some(out), true) = (c.out.clone(), r.chance(1, 10)) {
            // the directory of the output does not exist
            let (d, n) = out.rsplit_once('/').unwrap();
            let below = *r.pick(&["missing", "missing/deeper", "not/./there", "no-dir/.."]);
            let cwd = c.proc.cwd.clone();
            for a in c.proc.argv.iter_mut().skip(2) {
                let Some((ad, an)) = abs(&cwd, a).rsplit_once('/').map(|(x, y)| (x.to_string(), y.to_string())) else { continue };
                if an == n && c.image.real(&ad).unwrap_or(ad.clone()) == d {
                    *a = format!("{ad}/{below}/{n}");
                    c.out = Some(abs("/", &format!("{d}/{below}/{n}")));
                    missing = true;
                    marks.push("output in a missing directory");
                }
            }
        }
        if let (Some(out), false) = (&c.out, missing) {
            for ext in ["~", ".tmp", ".bak", ".orig", ".lock"] {
                if r.chance(1, 3) {
                    let p = format!("{out}{ext}");
                    c.image.file(&p, "bystander\n");
                    bystanders.push(p);
                }
            }
        }
        for p in c.inputs.clone() {
            if r.chance(1, 4) {
                let q = format!("{p}{}", r.pick(&["~", ".bak", ".patched", ".tmp", ".html"]));
                if !c.image.0.contains_key(&q) && c.out.as_deref() != Some(&q) {
                    c.image.file(&q, "bystander\n");
                    bystanders.push(q);
                }
            }
        }
        if let Some(dir) = c.dir.clone() {
            if r.chance(1, 2) {
                for n in ["notes.txt", "old/page.htm", "zz-other.svd", ".hidden", ".svdtools-1-0.tmp", "style.css", "README.html.txt", "WWDG_0x49000000.html", "WWDG_0x49000000_CR_0x0000.html", "OLDCHIP.html", "OLDCHIP.svd", "index.htm", ".svdtools-1000-0.tmp.svd"] {
                    if r.chance(1, 2) {
                        let p = format!("{dir}/{n}");
                        c.image.file(&p, "bystander\n");
                        bystanders.push(p);
                    }
                }
                marks.push("bystander in the output directory");
            }
            // names from the content of the SVD
            if r.chance(1, 2) && !c.inputs.is_empty() {
                let k = r.below(c.inputs.len() as u64) as usize;
                let p = c.inputs[k].clone();
                let mut d = if k < c.devs.len() { c.devs[k].clone() } else { c.devs[0].clone() };
                let mut name = r.pick(HOSTILE).to_string();
                let files = c.image.0.iter().any(|(q, n)| n.kind == Kind::File && q.starts_with("/w"));
                if files && r.chance(1, 4) {
                    // right onto another file
                    let target = c.image.0.iter().filter(|(q, n)| n.kind == Kind::File && q.starts_with("/w")).map(|x| x.0.clone()).collect::<Vec<_>>();
                    let t = r.pick(&target).clone();
                    let t = t.strip_suffix(".html").unwrap_or(&t).to_string();
                    name = crate::genpatch::relative(&format!("{dir}/x"), &t);
                }
                let what = r.below(3);
                if what == 0 || c.cmd == Cmd::Html {
                    d.name = name.clone();
                }
                if what == 1 && !d.pers.is_empty() {
                    let j = r.below(d.pers.len() as u64) as usize;
                    let old = d.pers[j].name.clone();
                    d.pers[j].name = name.clone();
                    for q in &mut d.pers {
                        if q.derived.as_ref() == Some(&old) {
                            q.derived = Some(name.clone());
                        }
                    }
                }
                if what == 2 {
                    if let Some(q) = d.pers.iter_mut().find(|q| !q.items.is_empty()) {
                        for it in &mut q.items {
                            if let crate::gensvd::Item::R(x) = it {
                                x.name = name.clone();
                                break;
                            }
                        }
                    }
                }
                let t = c.image.0[&p].mtime;
                c.image.put(&p, d.xml(), t);
                // what is then this device's page is no bystander
                bystanders.retain(|b| *b != format!("{dir}/{}.html", d.name));
                marks.push("hostile name");
            }
            if c.cmd == Cmd::Html && r.chance(1, 4) && !c.inputs.is_empty() {
                // an input where a page, a copy or the index would go
                let k = r.below(c.inputs.len() as u64) as usize;
                let dn = c.devs[r.below(c.devs.len() as u64) as usize].name.clone();
                let other = c.inputs[r.below(c.inputs.len() as u64) as usize].clone();
                let base = match r.below(4) {
                    0 => "index.html".to_string(),
                    1 => format!("{dn}.html"),
                    2 => other[other.rfind('/').unwrap() + 1..].to_string(),
                    _ => format!(".svdtools-{}-0.tmp", 4000 + r.below(3)),
                };
                let p = format!("{dir}/{base}");
                if !c.image.0.contains_key(&p) {
                    let data = c.image.get(&c.inputs[k]).unwrap().to_vec();
                    c.image.put(&p, data, T0 - r.below(3) as i64 * 1_000_000_000);
                    c.proc.argv.push(p.clone());
                    c.inputs.push(p);
                    marks.push("inputs in the output directory");
                }
            }
            if c.cmd == Cmd::Html && r.chance(1, 5) {
                // links in the directory that lead outside
                let dn = c.devs.first().map_or("x".into(), |d| d.name.clone());
                let i = c.inputs.first().cloned().unwrap_or("/w/x.svd".into());
                let at = match r.below(3) {
                    0 => format!("{dir}/index.html"),
                    1 => format!("{dir}/{dn}.html"),
                    _ => format!("{dir}/{}", &i[i.rfind('/').unwrap() + 1..]),
                };
                if !c.image.0.contains_key(&at) {
                    let t = if r.chance(1, 2) { i } else { "/w/elsewhere.html".to_string() };
                    if !c.image.0.contains_key(&t) {
                        c.image.file(&t, "bystander\n");
                    }
                    c.image.link(&at, &t);
                    marks.push("link in the output directory");
                }
            }
        }
        if c.inputs.iter().any(|i| c.dir.as_ref().map_or(false, |d| i.starts_with(&format!("{d}/")))) {
            marks.push("inputs in the output directory");
        }
        bystanders.retain(|b| !c.inputs.contains(b));
        let o = ex.reference("svdtools", &c.image, &c.proc);
        for k in 0..6 {
            let mut run = plain(&c.proc);
            if k > 0 {
                shake(r, &mut run.cfg);
                if r.chance(1, 2) {
                    run.cfg.pid_base = 4000;
                }
                if c.cmd == Cmd::Html && r.chance(1, 2) {
                    run.cfg.ncpu = r.range(2, 4);
                    schedule(r, &mut run.cfg);
                }
                for _ in 0..r.range(1, 2) {
                    any_fault(r, &o, &mut run);
                }
            }
            let s = scenario("C08", "touched", &c, run).set("bystanders", bystanders.clone()).set("marks", marks.iter().map(|s| s.to_string()).collect());
            if !sink(s, ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        ex.nontrivial = s.fact("marks").iter().any(|m| m == "hostile name");
        let o = ex.go(&s.bin, &s.image, run);
        for m in s.fact("marks") {
            ex.stats.probe(m);
        }
        if o.procs[0].signal().is_some() {
            ex.stats.probe("killed");
        } else if !o.procs[0].ok() {
            ex.stats.probe("failed");
        }
        let (dir, ins) = (s.fact("dir"), s.fact("inputs"));
        let compare = s.fact("cmd").first().map_or(false, |c| c == "Htmlcompare");
        for (p, how) in touched(&s.image, &o) {
            let requested = s.fact("out").contains(&p)
                || dir.iter().any(|d| (p.starts_with(&format!("{d}/")) && !s.fact("bystanders").contains(&p)) || p == *d || (compare && how == "created" && d.starts_with(&format!("{p}/"))));
            let hit = |class: &str| {
                violation(
                    class,
                    format!("{} ({}): {p} was {how}; {}", run.procs[0].argv.join(" "), o.procs[0].show(), c02::faults(run, &o)),
                )
            };
            if ins.contains(&p) && !s.fact("out").contains(&p) {
                return hit("input touched");
            }
            if !requested {
                return hit(if how == "created" { "stray file" } else { "bystander touched" });
            }
        }
        Ok(())
    }
}
