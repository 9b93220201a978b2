//! One command line together with a file tree on which it makes sense.
use crate::genpatch::*;
use crate::gensvd::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Cmd {
    Patch,
    Expand,
    Makedeps,
    Convert,
    Htmlcompare,
    Html,
    Mmap,
    Interrupts,
    Info,
}
pub const WRITERS: &[Cmd] = &[Cmd::Patch, Cmd::Patch, Cmd::Patch, Cmd::Expand, Cmd::Makedeps, Cmd::Makedeps, Cmd::Convert, Cmd::Convert, Cmd::Htmlcompare];
pub const NON_HTML: &[Cmd] = &[
    Cmd::Patch, Cmd::Patch, Cmd::Patch, Cmd::Expand, Cmd::Expand, Cmd::Makedeps, Cmd::Makedeps, Cmd::Convert, Cmd::Convert,
    Cmd::Htmlcompare, Cmd::Mmap, Cmd::Interrupts, Cmd::Info,
];
pub const ALL: &[Cmd] = &[
    Cmd::Patch, Cmd::Patch, Cmd::Patch, Cmd::Expand, Cmd::Expand, Cmd::Makedeps, Cmd::Makedeps, Cmd::Convert, Cmd::Convert,
    Cmd::Htmlcompare, Cmd::Html, Cmd::Html, Cmd::Html, Cmd::Mmap, Cmd::Interrupts, Cmd::Info,
];

#[derive(Clone, Debug)]
pub struct Case {
    pub image: Image,
    pub proc: ProcSpec,
    pub cmd: Cmd,
    /// real paths of the files the command has to read
    pub inputs: Vec<String>,
    /// those it is told to read exactly once
    pub once: Vec<String>,
    /// real path of the output file
    pub out: Option<String>,
    /// output directory
    pub dir: Option<String>,
    /// the root of a patch set
    pub set: Option<PatchSet>,
    pub devs: Vec<Dev>,
    /// another path to a file or directory, through a symbolic link
    pub alias: BTreeMap<String, String>,
}

impl Case {
    pub fn named(&self, p: &str) -> String {
        self.alias.get(p).cloned().unwrap_or(p.into())
    }
    /// May the command create or change this path?
    pub fn allowed(&self, p: &str) -> bool {
        if self.out.as_deref() == Some(p) {
            return true;
        }
        match &self.dir {
            Some(d) => p == d || p.starts_with(&format!("{d}/")) || (self.cmd == Cmd::Htmlcompare && d.starts_with(&format!("{p}/"))),
            None => false,
        }
    }
}

/// A path as the user might write it.
pub fn spell(r: &mut Rng, cwd: &str, p: &str) -> String {
    match r.below(6) {
        0 => p.to_string(),
        1 => format!("./{}", relative(&format!("{cwd}/x"), p)),
        2 if p.matches('/').count() > 1 => {
            let k = p.rfind('/').unwrap();
            format!("{}/./{}", &p[..k], &p[k + 1..])
        }
        _ => relative(&format!("{cwd}/x"), p),
    }
}
pub fn sp(r: &mut Rng, cwd: &str, p: &str, v: &mut Vec<String>) {
    v.push(spell(r, cwd, p))
}

pub fn argv(cmd: &str) -> Vec<String> {
    vec!["svdtools".into(), cmd.into()]
}

const CWDS: &[&str] = &["/w", "/w", "/w", "/w/proj", "/", "/home/u"];
const DEVNAMES: &[&str] = &["STM32F0", "nRF52", "dev", "Zeta", "alpha", "LPC55", "ATSAMD21G", "esp32-c3", "beta_2", "K32 L2"];

pub fn format_config(r: &mut Rng, img: &mut Image, dir: &str) -> String {
    let mut all: Vec<(&str, &[&str])> = vec![
        ("peripheral_name", &["Snake", "Constant", "Pascal", "Camel"]),
        ("peripheral_base_address", &["LowerHex", "UpperHex", "Dec", "LowerHex8"]),
        ("peripheral_sorting", &["Name", "Offset", "OffsetReversed", "DerivedLast", "Name,DerivedLast"]),
        ("register_name", &["Snake", "Constant", "Pascal"]),
        ("register_reset_value", &["LowerHex", "Dec", "Bin", "UpperHex8"]),
        ("register_address_offset", &["LowerHex", "Dec"]),
        ("register_cluster_sorting", &["RegistersFirst", "ClustersFirst", "Name", "Offset,RegistersFirst"]),
        ("field_name", &["Snake", "Constant"]),
        ("field_bit_range", &["BitRange", "OffsetWidth", "MsbLsb"]),
        ("field_sorting", &["Name", "Offset", "OffsetReversed"]),
        ("enumerated_value_name", &["Snake", "Constant", "Pascal"]),
        ("enumerated_value_value", &["Dec", "Bin", "LowerHex"]),
        ("interrupt_name", &["Snake", "Constant"]),
        ("dim_increment", &["Dec", "LowerHex"]),
    ];
    r.shuffle(&mut all);
    let n = r.range(1, 8) as usize;
    let v: Vec<(String, String)> = all[..n].iter().map(|(k, o)| (k.to_string(), r.pick(o).to_string())).collect();
    if r.chance(1, 2) {
        let p = format!("{dir}/format.{}", r.pick(&["yaml", "yml"]));
        let flow = r.chance(1, 6);
        img.file(&p, config_text(&v, flow));
        p
    } else {
        let p = format!("{dir}/format.json");
        img.file(&p, config_text(&v, true));
        p
    }
}

/// In JSON notation, which is YAML too, or one key to a line.
pub fn config_text(v: &[(String, String)], json: bool) -> String {
    if json {
        format!("{{{}}}\n", v.iter().map(|(k, x)| format!("\n  \"{k}\": \"{x}\"")).collect::<Vec<_>>().join(","))
    } else {
        v.iter().map(|(k, x)| format!("{k}: \"{x}\"\n")).collect()
    }
}

/// The keys and values of a text of either notation
pub fn config_pairs(t: &str) -> Vec<(String, String)> {
    t.lines().filter_map(|l| l.split_once(':')).map(|(k, x)| (k.trim_matches([' ', '"', '{']).to_string(), x.trim_matches([' ', '"', ',', '}']).to_string())).collect()
}

pub fn corpus(name: &str) -> Vec<(String, Vec<u8>)> {
    let base = format!("{}/../corpus/{name}", env!("CARGO_MANIFEST_DIR"));
    let mut v = vec![];
    fn walk(base: &str, d: &str, v: &mut Vec<(String, Vec<u8>)>) {
        let mut es: Vec<_> = std::fs::read_dir(d).unwrap_or_else(|e| fail(&format!("corpus {d}: {e}"))).map(|e| e.unwrap().path()).collect();
        es.sort();
        for e in es {
            let s = e.to_str().unwrap().to_string();
            if e.is_dir() {
                walk(base, &s, v)
            } else {
                v.push((s[base.len() + 1..].to_string(), std::fs::read(&e).unwrap()));
            }
        }
    }
    walk(&base, &base, &mut v);
    v
}
const CORPUS: &[&str] = &["add", "cluster", "copy", "delete", "example1", "expand_cluster", "include", "modify"];

#[derive(Clone, Copy, Debug)]
pub struct GenOpt {
    pub graph: Option<GraphOpt>,
    /// no very large files
    pub light: bool,
    /// html devices and file names never collide
    pub distinct: bool,
    pub corpus: bool,
}
impl Default for GenOpt {
    fn default() -> GenOpt {
        GenOpt { graph: None, light: false, distinct: true, corpus: true }
    }
}

fn dev_opt(r: &mut Rng, g: &GenOpt) -> Opt {
    let mut o = if g.light { Opt::small(r) } else { Opt::pick(r) };
    if g.light && r.chance(1, 12) {
        o.pad = r.range(9_000, 20_000) as usize;
    }
    o
}

fn graph(r: &mut Rng) -> GraphOpt {
    let mut g = GraphOpt {
        files: *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6]),
        diamonds: r.chance(1, 4),
        links: r.chance(1, 4),
        empties: r.chance(1, 5),
    };
    if r.chance(1, 50) {
        // many files
        g.files = r.range(8, 24);
        g.diamonds = false;
    }
    g
}

fn patch_like(r: &mut Rng, g: &GenOpt) -> (Image, PatchSet, Vec<Dev>, Vec<String>, Vec<String>) {
    let mut img = Image::skeleton();
    if g.corpus && r.chance(1, 12) {
        let name = *r.pick(CORPUS);
        let mut inputs = vec![];
        for (p, d) in corpus(name) {
            if p.starts_with("expected") {
                continue;
            }
            img.file(&format!("/w/corpus/{name}/{p}"), d);
            inputs.push(format!("/w/corpus/{name}/{p}"));
        }
        let find = |f: &dyn Fn(&String) -> bool| inputs.iter().find(|p| f(p)).unwrap().clone();
        let root = find(&|p| p.contains("/patch.y"));
        let svd = find(&|p| p.ends_with(".svd"));
        let opened: Vec<String> = inputs.iter().filter(|p| **p != root && **p != svd).cloned().collect();
        let set = PatchSet { root, svd, opened, extra_svd: None };
        return (img, set, vec![], inputs.clone(), inputs);
    }
    let o = dev_opt(r, g);
    let dn = *r.pick(DEVNAMES);
            let dev = device(r, &o, dn);
    let svd = match r.below(4) {
        0 => "/w/proj/dev.svd".to_string(),
        1 => "/w/svd/vendor/chip.svd".into(),
        2 => "/w/dev.svd".into(),
        _ => "/w/svd/dev.svd.orig".into(),
    };
    let mut svd = svd;
    if r.chance(1, 12) {
        svd = "/w/svd/CHIP.xml".into();
    }
    img.file(&svd, dev.xml());
    let mut named = svd.clone();
    if r.chance(1, 10) {
        named = "/w/svd/link.svd".into();
        img.link(&named, &svd);
    }
    let dir = *r.pick(&["/w", "/w/patches", "/w/proj", "/w/proj/devices"]);
    let gr = g.graph.unwrap_or_else(|| graph(r));
    let stem = *r.pick(&["dev", "root", "chip.v1"]);
    let mut set = patch_set(r, &mut img, &dev, dir, stem, &named, gr);
    set.svd = svd.clone();
    let mut inputs = vec![set.root.clone(), svd.clone()];
    let mut once = inputs.clone();
    for i in &set.opened {
        if !inputs.contains(i) {
            inputs.push(i.clone());
        }
        if set.opened.iter().filter(|x| *x == i).count() == 1 {
            once.push(i.clone());
        }
    }
    if let Some(x) = &set.extra_svd {
        inputs.push(x.clone());
        once.push(x.clone());
    }
    (img, set, vec![dev], inputs, once)
}

/// Where to write, sometimes through a link; returns (as named, real).
fn out_path(r: &mut Rng, img: &mut Image, name: &str) -> (String, String) {
    let d = *r.pick(&["/w/out", "/w", "/w/proj", "/w/out/sub", "/tmp"]);
    img.dir(d);
    let p = format!("{d}/{name}");
    if r.chance(1, 12) {
        let real = format!("/w/store/{name}");
        img.file(&real, "old\n");
        img.link(&p, &real);
        return (p, real);
    }
    (p.clone(), p)
}

/// The SVD of a device as JSON or YAML, by the tool itself.
pub fn translated(ex: &mut Exec, xml: &[u8], ext: &str) -> Option<Vec<u8>> {
    let mut img = Image::skeleton();
    img.file("/w/a.svd", xml.to_vec());
    let mut a = argv("convert");
    a.extend(["/w/a.svd".into(), format!("/w/b.{ext}")]);
    let o = ex.reference("svdtools", &img, &ProcSpec { argv: a, env: vec![], cwd: "/w".into() });
    if !o.procs[0].ok() {
        return None;
    }
    o.files.get(&format!("/w/b.{ext}")).map(|e| e.node.data.bytes().to_vec())
}

/// A device related to `d`: same peripherals, some differences.
pub fn variant(r: &mut Rng, d: &Dev, name: &str) -> Dev {
    let mut v = d.clone();
    v.name = name.into();
    v.version = format!("2.{}", r.below(100));
    if v.pers.len() > 1 && r.chance(1, 2) {
        let k = r.below(v.pers.len() as u64) as usize;
        if v.pers.iter().all(|p| p.derived.as_ref() != Some(&v.pers[k].name)) {
            v.pers.remove(k);
        }
    }
    for p in &mut v.pers {
        if r.chance(1, 2) {
            p.desc = Some(text(r));
        }
        for i in &mut p.items {
            if let Item::R(x) = i {
                if r.chance(1, 3) {
                    x.desc = Some(text(r));
                    x.fields.retain(|_| r.chance(4, 5));
                }
            }
        }
    }
    v
}

pub fn html_inputs(r: &mut Rng, img: &mut Image, g: &GenOpt, n: u64, dir: &str, indir: bool) -> (Vec<String>, Vec<Dev>) {
    let mut files: Vec<String> = vec![];
    let mut devs: Vec<Dev> = vec![];
    let mut names: Vec<&str> = DEVNAMES.to_vec();
    r.shuffle(&mut names);
    for k in 0..n as usize {
        let o = dev_opt(r, g);
        let mut nm = names[k % names.len()].to_string();
        if k >= names.len() {
            nm = format!("{nm}-{k}");
        }
        if !g.distinct && !devs.is_empty() && r.chance(1, 4) {
            nm = devs[r.below(devs.len() as u64) as usize].name.clone();
        } else if !g.distinct && !devs.is_empty() && r.chance(1, 8) {
            nm = devs[r.below(devs.len() as u64) as usize].name.to_uppercase();
        } else if !devs.is_empty() && r.chance(1, 8) {
            let other = &devs[r.below(devs.len() as u64) as usize].name;
            let twin = if r.chance(1, 2) { other.to_uppercase() } else { other.to_lowercase() };
            if devs.iter().all(|d| d.name != twin) {
                nm = twin;
            }
        }
        let dev = device(r, &o, &nm);
        let base = format!("{}.svd{}", ["m0", "Chip", "x.patched", "b", "longer-name", "z9"].get(k).map_or(format!("m{k}"), |s| s.to_string()), if r.chance(1, 3) { ".patched" } else { "" });
        let mut p = if indir && r.chance(1, 2) { format!("{dir}/{base}") } else { format!("/w/svd/{}{base}", if r.chance(1, 4) { "sub/" } else { "" }) };
        if !g.distinct && !files.is_empty() && r.chance(1, 5) {
            let q = r.pick(&files).clone();
            p = format!("/w/other{k}/{}", &q[q.rfind('/').unwrap() + 1..]);
        }
        if files.contains(&p) {
            continue;
        }
        let t = T0 - r.below(5) as i64 * 1_000_000_000;
        img.put(&p, dev.xml(), t);
        files.push(p);
        devs.push(dev);
    }
    (files, devs)
}

/// A link of the same name elsewhere
fn linked(r: &mut Rng, img: &mut Image, p: &str, alias: &mut BTreeMap<String, String>) {
    let l = format!("/w/links/{}{}", if alias.is_empty() { String::new() } else { format!("{}/", alias.len()) }, &p[p.rfind('/').unwrap() + 1..]);
    img.dir(&l[..l.rfind('/').unwrap()]);
    let target = if r.chance(1, 2) { p.to_string() } else { relative(&l, p) };
    img.link(&l, &target);
    alias.insert(p.to_string(), l);
}

pub fn generate(r: &mut Rng, ex: &mut Exec, cmds: &[Cmd], g: &GenOpt) -> Case {
    let cmd = *r.pick(cmds);
    let cwd = r.pick(CWDS).to_string();
    let mut case = Case {
        image: Image::default(),
        proc: ProcSpec { argv: vec![], env: vec![], cwd: cwd.clone() },
        cmd,
        inputs: vec![],
        once: vec![],
        out: None,
        dir: None,
        set: None,
        devs: vec![],
        alias: BTreeMap::new(),
    };
    let mut a;
    match cmd {
        Cmd::Patch | Cmd::Expand | Cmd::Makedeps => {
            let (mut img, set, devs, mut inputs, mut once) = patch_like(r, g);
            img.dir(&cwd);
            let mut root = set.root.clone();
            if r.chance(1, 14) {
                let l = format!("{}/by-link.yaml", &root[..root.rfind('/').unwrap()]);
                img.link(&l, &root);
                root = l;
            }
            a = argv(match cmd {
                Cmd::Patch => "patch",
                Cmd::Expand => "expand-patch",
                _ => "makedeps",
            });
            let mut pos = vec![spell(r, &cwd, &root)];
            if !root.contains(&pos[0].replace("./", "")) && root.starts_with(&cwd) && r.chance(1, 2) {
                pos = vec![root.clone()];
            }
            match cmd {
                Cmd::Patch => {
                    if r.chance(1, 3) {
                        let stem = set.svd.rfind('.').unwrap();
                        case.out = Some(format!("{}.svd.patched", &set.svd[..stem]));
                    } else {
                        let (n, real) = out_path(r, &mut img, "result.svd");
                        sp(r, &cwd, &n, &mut pos);
                        case.out = Some(real);
                    }
                    if r.chance(1, 4) {
                        let f = format_config(r, &mut img, "/w/cfg");
                        pos.push("--format-config".into());
                        pos.push(spell(r, &cwd, &f));
                        inputs.push(f.clone());
                        once.push(f);
                    }
                    if r.chance(1, 5) {
                        pos.push("--enum-derive".into());
                        pos.push(r.pick(&["enum", "field", "none"]).to_string());
                    }
                    if r.chance(1, 10) {
                        pos.push("--post-validate".into());
                    }
                    if r.chance(1, 10) {
                        pos.push("--show-patch-on-error".into());
                    }
                }
                Cmd::Expand => {
                    inputs.retain(|p| *p != set.svd && Some(p) != set.extra_svd.as_ref());
                    once.retain(|p| *p != set.svd && Some(p) != set.extra_svd.as_ref());
                    if r.chance(1, 2) {
                        let (n, real) = out_path(r, &mut img, "expanded.yaml");
                        sp(r, &cwd, &n, &mut pos);
                        case.out = Some(real);
                    }
                }
                _ => {
                    inputs.retain(|p| *p != set.svd && Some(p) != set.extra_svd.as_ref());
                    once.retain(|p| *p != set.svd && Some(p) != set.extra_svd.as_ref());
                    let (n, real) = out_path(r, &mut img, "deps.d");
                    sp(r, &cwd, &n, &mut pos);
                    case.out = Some(real);
                }
            }
            a.extend(pos);
            case.image = img;
            case.devs = devs;
            case.inputs = inputs;
            case.once = once;
            case.set = Some(set);
        }
        Cmd::Convert | Cmd::Mmap | Cmd::Interrupts | Cmd::Info => {
            let mut img = Image::skeleton();
            img.dir(&cwd);
            let mut xml = None;
            if g.corpus && r.chance(1, 10) {
                let c = *r.pick(CORPUS);
                xml = corpus(c).into_iter().find(|(p, _)| p.ends_with(".svd") && !p.starts_with("expected")).map(|x| x.1);
            }
            let o = dev_opt(r, g);
            let dn = *r.pick(DEVNAMES);
            let dev = device(r, &o, dn);
            let xml = xml.unwrap_or_else(|| dev.xml().into_bytes());
            let mut ext = "svd";
            if matches!(cmd, Cmd::Convert | Cmd::Info) {
                ext = *r.pick(&["svd", "svd", "xml", "json", "yaml", "yml"]);
            }
            let mut data = xml.clone();
            if ext != "svd" && ext != "xml" {
                match translated(ex, &xml, ext) {
                    Some(d) => data = d,
                    None => ext = "svd",
                }
            }
            let mut p = format!("{}/in.{ext}", r.pick(&["/w", "/w/svd", "/w/proj"]));
            if r.chance(1, 25) {
                // not UTF-8
                p = format!("/w/s{ODD}d/in.{ext}");
            }
            let mut infmt = None;
            if matches!(cmd, Cmd::Convert | Cmd::Info) && r.chance(1, 6) {
                p = p.replace(&format!("in.{ext}"), "in.data");
                infmt = Some(match ext {
                    "json" => "json",
                    "yaml" | "yml" => "yaml",
                    _ => "xml",
                });
            }
            img.file(&p, data);
            let mut named = p.clone();
            if r.chance(1, 12) {
                named = format!("/w/ln.{}", p.rsplit('.').next().unwrap());
                img.link(&named, &p);
            }
            a = argv(match cmd {
                Cmd::Convert => "convert",
                Cmd::Mmap => "mmap",
                Cmd::Interrupts => "interrupts",
                _ => "info",
            });
            case.inputs = vec![p.clone()];
            sp(r, &cwd, &named, &mut a);
            match cmd {
                Cmd::Convert => {
                    let oe = *r.pick(&["svd", "xml", "json", "yaml", "yml"]);
                    let mut file = format!("converted.{oe}");
                    let mut of = None;
                    if r.chance(1, 6) {
                        file = "converted.txt".into();
                        of = Some(match oe {
                            "svd" | "xml" => "xml",
                            "json" => "json",
                            _ => "yaml",
                        });
                    }
                    if r.chance(1, 30) {
                        file = format!("con{ODD}{file}");
                    }
                    let (n, real) = out_path(r, &mut img, &file);
                    sp(r, &cwd, &n, &mut a);
                    case.out = Some(real);
                    if let Some(f) = infmt {
                        a.extend(["--input-format".into(), f.into()]);
                    }
                    if let Some(f) = of {
                        a.extend(["--output-format".into(), f.into()]);
                    }
                    for (f, c) in [("--expand", 4), ("--expand-properties", 4), ("--ignore-enums", 6)] {
                        if r.chance(1, c) {
                            a.push(f.into());
                        }
                    }
                    if r.chance(1, 4) {
                        let f = format_config(r, &mut img, "/w/cfg");
                        a.push("--format-config".into());
                        a.push(spell(r, &cwd, &f));
                        case.inputs.push(f);
                    }
                }
                Cmd::Interrupts => {
                    if r.chance(1, 3) {
                        a.push("--no-gaps".into());
                    }
                }
                Cmd::Info => {
                    a.push("device-name".into());
                    if let Some(f) = infmt {
                        a.extend(["--input-format".into(), f.into()]);
                    }
                }
                _ => {}
            }
            case.once = case.inputs.clone();
            case.image = img;
            case.devs = vec![dev];
        }
        Cmd::Htmlcompare => {
            let mut img = Image::skeleton();
            img.dir(&cwd);
            let o = Opt { pers: r.range(1, 4), regs: r.range(1, 3), fields: 2, pad: if r.chance(1, 12) { 20_000 } else { 0 } };
            let d = device(r, &o, "PartA");
            let n = r.range(1, 3);
            let mut devs = vec![d.clone()];
            for k in 1..n {
                devs.push(variant(r, &d, ["", "PartB", "PartC"][k as usize]));
            }
            a = argv("htmlcompare");
            let dir = r.pick(&["/w/cmp", "/w/new/deep/cmp", "/w/proj/cmp"]).to_string();
            if r.chance(1, 3) {
                img.dir(&dir);
            }
            sp(r, &cwd, &dir, &mut a);
            for (k, d) in devs.iter().enumerate() {
                let odd = r.chance(1, 40);
                let p = if odd { format!("/w/s{ODD}d/p{k}.svd") } else { format!("/w/svd/p{k}.svd") };
                img.file(&p, d.xml());
                if r.chance(1, 10) {
                    linked(r, &mut img, &p, &mut case.alias);
                }
                sp(r, &cwd, &case.named(&p), &mut a);
                case.inputs.push(p);
            }
            if r.chance(1, 15) {
                let p = case.inputs[0].clone();
                sp(r, &cwd, &p, &mut a);
                case.once = case.inputs[1..].to_vec();
            } else {
                case.once = case.inputs.clone();
            }
            case.dir = Some(dir);
            case.image = img;
            case.devs = devs;
        }
        Cmd::Html => {
            let mut img = Image::skeleton();
            img.dir(&cwd);
            let dir = r.pick(&["/w/html", "/w/html", "/w/out/site", "/tmp/h"]).to_string();
            img.dir(&dir[..dir.rfind('/').unwrap()]);
            let indir = r.chance(1, 6);
            if indir || r.chance(1, 2) {
                img.dir(&dir);
            }
            let mut n = *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 5, 6]);
            if g.light && r.chance(1, 60) {
                n = r.range(8, 18);
            }
            let (mut files, devs) = html_inputs(r, &mut img, g, n, &dir, indir);
            a = argv("html");
            sp(r, &cwd, &dir, &mut a);
            case.inputs = files.clone();
            if r.chance(1, 8) {
                files.insert(r.below(files.len() as u64 + 1) as usize, "/w/svd/not-there.svd".into());
            }
            if r.chance(1, 25) {
                // a name which is not UTF-8: html refuses it
                let p = r.pick(&["/w/o\u{f8fe}d/m7.svd", "/w/svd/o\u{f8fe}d.svd", "/w/svd/od.sv\u{f8fe}d"]).to_string();
                let dev = {
                    let o = Opt::small(r);
                    device(r, &o, "Oddly")
                };
                img.file(&p, dev.xml());
                files.insert(r.below(files.len() as u64 + 1) as usize, p);
            }
            for f in &files {
                if r.chance(1, 8) && img.get(f).is_some() {
                    linked(r, &mut img, f, &mut case.alias);
                }
                sp(r, &cwd, &case.named(f), &mut a);
            }
            case.dir = Some(dir);
            case.image = img;
            case.devs = devs;
        }
    }
    for x in case.proc.argv.iter() {
        debug_assert!(!x.is_empty());
    }
    case.proc.argv = a;
    if r.chance(1, 6) {
        case.proc.env.push(r.pick(&["RUST_LOG=debug", "RUST_LOG=off", "HOME=/home/u", "RUST_BACKTRACE=1", "LANG=de_DE.UTF-8"]).to_string());
    }
    debug_assert!(case.inputs.iter().collect::<BTreeSet<_>>().len() == case.inputs.len());
    case
}

/// Everything a run produced: bytes of its output file or directory.
pub fn produced(case: &Case, o: &Outcome) -> std::collections::BTreeMap<String, Blob> {
    let mut m = std::collections::BTreeMap::new();
    if let Some(p) = &case.out {
        if let Some(e) = o.files.get(p) {
            m.insert(p.clone(), e.node.data.clone());
        }
    }
    if let Some(d) = &case.dir {
        let pre = format!("{d}/");
        for (p, e) in o.files.range(pre.clone()..).take_while(|(p, _)| p.starts_with(&pre)) {
            m.insert(p.clone(), if e.node.kind == Kind::Dir { "<dir>".into() } else { e.node.data.clone() });
        }
    }
    m
}
