//! A tree with several roots, devices and other inputs, and commands that share them.
use crate::case::*;
use crate::genpatch::*;
use crate::gensvd::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::world::*;

pub struct Shop {
    pub image: Image,
    pub sets: Vec<PatchSet>,
    /// valid SVD files, with their devices
    pub svds: Vec<(String, Dev)>,
    /// devices as JSON or YAML
    pub data: Vec<String>,
    /// inputs that make commands fail
    pub bad_svd: Vec<String>,
    pub bad_yaml: Vec<String>,
    pub config: Vec<String>,
    /// how outputs are called (see `out`)
    pub style: std::cell::Cell<u64>,
}
pub const STYLES: u64 = 5;
/// The output of the k-th command: names of their own, equal but for the end of the name, in different
/// directories, extending each other, or differing in case.
fn out(s: &Shop, k: u64, letter: char, ext: &str) -> String {
    let ends = ["svd", "d", "xml", "svd.patched", "json", "yaml", "SVD", "out", "tmp", "bak"];
    match s.style.get() {
        1 => {
            let e = ends[(k % 10) as usize];
            let again = if k < 10 { String::new() } else { (k / 10).to_string() };
            format!("/w/out/chip{again}.{e}")
        }
        2 => format!("/w/out/s{}/chip{}.svd", k % 10, k / 10),
        3 => format!("/w/out/o{}", ".o".repeat(k as usize % 40)),
        4 => {
            let n: String = "chip".chars().enumerate().map(|(i, c)| if k >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            format!("/w/out/{n}{}.svd", if k > 15 { (k / 16).to_string() } else { String::new() })
        }
        _ => format!("/w/out/{letter}{k}.{ext}"),
    }
}
/// The same place under another name.
pub fn again(path: &str) -> String {
    let (d, n) = path.rsplit_once('/').unwrap();
    format!("{d}/again-{n}")
}

pub fn shop(r: &mut Rng, ex: &mut Exec) -> Shop {
    let mut img = Image::skeleton();
    let mut sets = vec![];
    let mut svds = vec![];
    let mut data = vec![];
    let names = ["alpha", "Beta", "GAMMA", "delta-4", "eps"];
    let n = r.range(1, 3) as usize;
    for k in 0..n {
        let mut o = Opt::small(r);
        if r.chance(1, 10) {
            o.pad = r.range(9_000, 40_000) as usize;
        }
        let d = device(r, &o, names[k]);
        let p = format!("/w/svd/{}.svd", ["a", "b", "c"][k]);
        img.file(&p, d.xml());
        let d2 = variant(r, &d, names[k]);
        let d2 = Dev { name: format!("{}x", names[k]), ..d2 };
        let p2 = format!("/w/svd/{}2.svd", ["a", "b", "c"][k]);
        img.file(&p2, d2.xml());
        for j in 0..r.range(1, 2) {
            let dir = *r.pick(&["/w/patches", "/w/devices"]);
            let g = GraphOpt { files: r.below(4), diamonds: r.chance(1, 3), links: r.chance(1, 4), empties: r.chance(1, 5) };
            let mut set = patch_set(r, &mut img, &d, dir, &format!("{}{j}", ["a", "b", "c"][k]), &p, g);
            set.svd = p.clone();
            sets.push(set);
        }
        if r.chance(1, 2) {
            let ext = *r.pick(&["json", "yaml"]);
            if let Some(t) = translated(ex, &d.xml().into_bytes(), ext) {
                let q = format!("/w/data/{}.{ext}", ["a", "b", "c"][k]);
                img.file(&q, t);
                data.push(q);
            }
        }
        svds.push((p, d));
        svds.push((p2, d2));
    }
    let good = svds[0].1.xml();
    img.file("/w/bad/cut.svd", good.as_bytes()[..good.len() / 2].to_vec());
    img.file("/w/bad/empty.svd", Vec::new());
    img.file("/w/bad/latin.svd", [&b"<?xml version=\"1.0\"?>\n<device>\xe9"[..], good.as_bytes()].concat());
    img.file("/w/bad/field.svd", good.replacen("<bitWidth>", "<bitWidth>99", 1));
    img.file("/w/bad/dup.svd", good.replacen("<name>", "<name></name><name>", 1));
    let root = &sets[0];
    let head = format!("_svd: {}\n", relative("/w/bad/x", &root.svd));
    for (f, t) in [
        ("empty.yaml", String::new()),
        ("list.yaml", "- a\n".into()),
        ("nosvd.yaml", "_modify:\n  version: \"1\"\n".into()),
        ("rule.yaml", format!("{head}NOPE:\n  CR:\n    EN: [0, 1]\n")),
        ("inc.yaml", format!("{head}_include:\n  - nowhere.yaml\n")),
        ("deep.yaml", format!("{head}_include:\n  - deep1.yaml\n")),
        ("deep1.yaml", "_include:\n  - deep2.yaml\n".into()),
        ("deep2.yaml", "_include:\n  - nowhere.yaml\n".into()),
        ("round.yaml", format!("{head}_include:\n  - round1.yaml\n")),
        ("round1.yaml", "_include:\n  - round.yaml\n".into()),
        ("late.yaml", format!("{head}_include:\n  - late1.yaml\n")),
        ("late1.yaml", "_include:\n  - late2.yaml\n".into()),
        ("late2.yaml", "NOPE:\n  CR:\n    EN: [0, 1]\n".into()),
        ("self.yaml", format!("{head}_include:\n  - self.yaml\n")),
        ("gone.yaml", "_svd: nowhere.svd\n".into()),
        ("syntax.yaml", format!("{head}A: [1\n")),
        ("scalar.yaml", format!("{head}_include: ../bad/word.yaml\n")),
        ("word.yaml", "word\n".into()),
        ("number.yaml", format!("{head}1: 2\n")),
    ] {
        img.file(&format!("/w/bad/{f}"), t);
    }
    img.file(&format!("/w/b{ODD}d/odd.svd"), good.clone());
    img.file(&format!("/w/b{ODD}d/odd.yaml"), format!("{head}_modify:\n  version: \"3\"\n"));
    let c = format_config(r, &mut img, "/w/cfg");
    img.file("/w/cfg/bad.yaml", "register_name: Nonsense\n");
    img.dir("/w/out");
    for k in 0..10 {
        img.dir(&format!("/w/out/s{k}"));
    }
    Shop {
        image: img,
        sets,
        svds,
        data,
        bad_svd: ["cut", "empty", "latin", "field", "dup"].iter().map(|n| format!("/w/bad/{n}.svd")).chain(["/w/bad/none.svd".to_string(), format!("/w/b{ODD}d/odd.svd")]).collect(),
        bad_yaml: ["empty", "list", "nosvd", "rule", "inc", "deep", "round", "late", "self", "gone", "syntax", "scalar", "number", "none"].iter().map(|n| format!("/w/bad/{n}.yaml")).chain([format!("/w/b{ODD}d/odd.yaml")]).collect(),
        config: vec![c],
        style: std::cell::Cell::new(0),
    }
}

/// A command line of its own and where its output goes.
#[derive(Clone, Debug)]
pub struct Order {
    pub argv: Vec<String>,
    /// the same as a call of the library
    pub call: Vec<String>,
    pub out: Option<String>,
    pub dir: Option<String>,
}

/// The k-th command; `bad` of 16 fail because of their input.
pub fn order(r: &mut Rng, s: &Shop, k: u64, bad: u64) -> Order {
    let kind = r.below(13);
    order_of(r, s, k, bad, kind)
}
/// Kinds of which threads with similar work do one.
pub const KINDS: &[u64] = &[0, 4, 5, 7, 13, 14, 15, 10, 12];
pub fn order_of(r: &mut Rng, s: &Shop, k: u64, bad: u64, kind: u64) -> Order {
    let spoil = r.chance(bad, 16);
    let root = if spoil && r.chance(1, 2) { r.pick(&s.bad_yaml).clone() } else { r.pick(&s.sets).root.clone() };
    let svd = if spoil { r.pick(&s.bad_svd).clone() } else { r.pick(&s.svds).0.clone() };
    let mut o = Order { argv: vec!["svdtools".into()], call: vec![], out: None, dir: None };
    let mut cfg = String::new();
    if r.chance(1, 4) {
        cfg = if spoil && r.chance(1, 3) { "/w/cfg/bad.yaml".into() } else { r.pick(&s.config).clone() };
    }
    let st = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match kind {
        0..=3 => {
            let out = out(s, k, 'p', "svd");
            o.argv.extend(st(&["patch", &root, &out]));
            let mut opts = "";
            if !cfg.is_empty() {
                o.argv.extend(st(&["--format-config", &cfg]));
            }
            match r.below(5) {
                0 => {
                    o.argv.extend(st(&["--enum-derive", "field"]));
                    opts = "field";
                }
                1 => {
                    o.argv.push("--show-patch-on-error".into());
                    opts = "show";
                }
                _ => {}
            }
            o.call = st(&[if r.chance(1, 2) { "patch" } else { "process_file" }, &root, &out, &cfg, opts]);
            o.out = Some(out);
        }
        4 => {
            if r.chance(1, 2) {
                let out = out(s, k, 'e', "yaml");
                o.argv.extend(st(&["expand-patch", &root, &out]));
                o.out = Some(out);
            } else {
                o.argv.extend(st(&["expand-patch", &root]));
            }
            o.call = match r.below(3) {
                0 => st(&["load_patch", &root]),
                1 => st(&["process_reader", &root, &svd]),
                _ => st(&["expand_patch", &root]),
            };
        }
        5 | 6 => {
            let out = out(s, k, 'd', "d");
            o.argv.extend(st(&["makedeps", &root, &out]));
            o.call = st(&["makedeps", &root, &out]);
            o.out = Some(out);
        }
        7 | 8 => {
            let ext = *r.pick(&["svd", "json", "yaml", "xml"]);
            let out = out(s, k, 'c', ext);
            let fmt = if s.style.get() == 0 { "" } else { ext };
            let i = if !s.data.is_empty() && !spoil && r.chance(1, 3) { r.pick(&s.data).clone() } else { svd };
            o.argv.extend(st(&["convert", &i, &out]));
            if !fmt.is_empty() {
                o.argv.extend(st(&["--output-format", fmt]));
            }
            let mut opts = String::new();
            for (f, n) in [("--expand", "expand"), ("--expand-properties", "properties"), ("--ignore-enums", "ignore")] {
                if r.chance(1, 5) {
                    o.argv.push(f.into());
                    opts += n;
                }
            }
            if !cfg.is_empty() {
                o.argv.extend(st(&["--format-config", &cfg]));
            }
            o.call = st(&["convert", &i, &out, "", fmt, &opts, &cfg]);
            o.out = Some(out);
        }
        9 | 13..=15 => {
            let f = match kind {
                9 => *r.pick(&["mmap", "interrupts", "info"]),
                k => ["mmap", "interrupts", "info"][k as usize - 13],
            };
            o.argv.extend(st(&[f, &svd]));
            o.call = st(&[f, &svd]);
            match f {
                "info" => {
                    o.argv.push("device-name".into());
                    if r.chance(1, 2) {
                        o.call = st(&["open_svd", &svd, ""]);
                    }
                }
                "interrupts" if r.chance(1, 2) => o.call.push("gaps".into()),
                _ => {}
            }
        }
        10 | 11 => {
            let dir = format!("/w/out/h{k}");
            o.argv.extend(st(&["html", &dir]));
            o.call = st(&["html", &dir]);
            let mut v: Vec<String> = s.svds.iter().map(|x| x.0.clone()).collect();
            r.shuffle(&mut v);
            v.truncate(r.range(1, 3) as usize);
            if spoil && r.chance(1, 2) {
                v = vec![svd];
            }
            o.argv.extend(v.clone());
            o.call.extend(v);
            o.dir = Some(dir);
        }
        _ => {
            let dir = format!("/w/out/k{k}");
            let n = r.below(s.svds.len() as u64 / 2) as usize * 2;
            let mut v = vec![s.svds[n].0.clone(), s.svds[n + 1].0.clone()];
            if spoil {
                v[1] = svd;
            }
            o.argv.extend(st(&["htmlcompare", &dir]));
            o.argv.extend(v.clone());
            o.call = st(&["htmlcompare", &dir]);
            o.call.extend(v);
            o.dir = Some(dir);
        }
    }
    o
}
