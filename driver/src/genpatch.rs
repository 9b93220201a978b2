//! Random patch files: rules that fit a device, spread over a graph of includes.
use crate::gensvd::*;
use crate::rng::Rng;
use crate::sim::Image;

#[derive(Clone, Debug)]
pub enum Y {
    S(String),
    I(i64),
    L(Vec<Y>),
    M(Vec<(String, Y)>),
    Null,
    /// YAML text: a scalar, or lines to be indented
    Raw(String),
}
pub fn s(t: impl Into<String>) -> Y {
    Y::S(t.into())
}
pub type Map = Vec<(String, Y)>;

fn q(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn emit(y: &Y, ind: usize, o: &mut String) {
    let t = " ".repeat(ind);
    match y {
        Y::S(v) => o.push_str(&format!(" {}\n", q(v))),
        Y::I(v) if *v > 4096 => o.push_str(&format!(" 0x{v:X}\n")),
        Y::I(v) => o.push_str(&format!(" {v}\n")),
        Y::Null => o.push('\n'),
        Y::Raw(v) if !v.contains('\n') => o.push_str(&format!(" {v}\n")),
        Y::Raw(v) => {
            for l in v.split('\n') {
                o.push_str(&if l.is_empty() { "\n".to_string() } else { format!("{t}{l}\n") });
            }
        }
        Y::L(v) if v.is_empty() => o.push_str(" []\n"),
        Y::M(v) if v.is_empty() => o.push_str(" {}\n"),
        Y::L(v) => {
            o.push('\n');
            for x in v {
                o.push_str(&format!("{t}-"));
                emit(x, ind + 2, o);
            }
        }
        Y::M(v) => {
            o.push('\n');
            for (k, x) in v {
                if k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !k.chars().all(|c| c.is_ascii_digit()) {
                    o.push_str(&format!("{t}{k}:"));
                } else {
                    o.push_str(&format!("{t}{}:", q(k)));
                }
                emit(x, ind + 2, o);
            }
        }
    }
}
pub fn yaml(m: &Map) -> String {
    let mut o = String::new();
    if m.is_empty() {
        return o;
    }
    emit(&Y::M(m.clone()), 0, &mut o);
    o.trim_start_matches('\n').to_string()
}

fn descr(r: &mut Rng) -> Y {
    s(text(r))
}

fn enums(r: &mut Rng, width: u32, bias: u64) -> Y {
    let n = r.range(1, (1u64 << width).min(5));
    let names = ["Off", "On", "Fast", "Slow", "Auto"];
    let m: Map = (0..n)
        .map(|i| {
            (
                names[((i + bias) % 5) as usize].to_string(),
                Y::L(vec![Y::I(i as i64), descr(r)]),
            )
        })
        .collect();
    if r.chance(1, 6) {
        Y::M(vec![("_read".into(), Y::M(m.clone())), ("_write".into(), Y::M(m))])
    } else {
        Y::M(m)
    }
}

fn reg_rules(r: &mut Rng, x: &Reg) -> Map {
    let mut m = Map::new();
    let mut modify = Map::new();
    let mut del = vec![];
    for f in &x.fields {
        match r.below(8) {
            0 => modify.push((f.name.clone(), Y::M(vec![("description".into(), descr(r))]))),
            1 => modify.push((f.name.clone(), Y::M(vec![("access".into(), s("read-write")), ("description".into(), descr(r))]))),
            2 if x.fields.len() > 1 && del.is_empty() => del.push(s(&f.name)),
            3 | 4 if f.evs.is_empty() && f.range.is_none() => m.push((f.name.clone(), enums(r, f.width, r.0 % 5))),
            5 if f.evs.is_empty() && f.range.is_none() => {
                let hi = (1i64 << f.width) - 1;
                m.push((f.name.clone(), Y::L(vec![Y::I(r.below(hi as u64 + 1).min(1) as i64), Y::I(hi)])));
            }
            _ => {}
        }
    }
    // rarer rules, on a field that no other rule names
    if r.chance(1, 3) {
        let free = |m: &Map, modify: &Map, del: &Vec<Y>, n: &str| {
            !m.iter().chain(modify.iter()).any(|(k, _)| k == n) && !del.iter().any(|d| matches!(d, Y::S(x) if x == n))
        };
        let fs: Vec<&Fld> = x.fields.iter().filter(|f| free(&m, &modify, &del, &f.name)).collect();
        if let Some(f) = fs.first() {
            match r.below(6) {
                0 if f.width > 1 => {
                    let y = match r.below(3) {
                        0 => s(&f.name),
                        1 => Y::L(vec![s(&f.name)]),
                        _ => Y::M(vec![(f.name.clone(), Y::M(vec![("name".into(), s("BIT%s")), ("description".into(), s("bit %s"))]))]),
                    };
                    m.push(("_split".into(), y));
                }
                1 if fs.len() > 1 && fs[0].off + fs[0].width == fs[1].off => {
                    let both = vec![s(&fs[0].name), s(&fs[1].name)];
                    m.push(("_merge".into(), Y::M(vec![("JOINED".into(), Y::L(both))])));
                }
                2 => m.push(("_clear".into(), if r.chance(1, 2) { s(&f.name) } else { Y::L(vec![s(&f.name)]) })),
                3 => {
                    let end = x.fields.iter().map(|f| f.off + f.width).max().unwrap_or(0);
                    if end + 1 + f.width < x.size.unwrap_or(32) {
                        m.push((
                            "_derive".into(),
                            Y::M(vec![("DERIV".into(), Y::M(vec![("_from".into(), s(&f.name)), ("bitOffset".into(), Y::I(end as i64 + 1)), ("bitWidth".into(), Y::I(f.width as i64))]))]),
                        ));
                    }
                }
                4 if f.evs.is_empty() && f.range.is_none() && fs.len() > 1 => {
                    // the same values for several fields: one is derived from the other
                    let w = f.width;
                    if let Some(g) = fs[1..].iter().find(|g| g.width == w && g.evs.is_empty() && g.range.is_none()) {
                        m.push((format!("{},{}", f.name, g.name), enums(r, w, 0)));
                    }
                }
                5 if !f.evs.is_empty() => {
                    let e: Map = f.evs.iter().map(|e| (format!("N{}", e.val), Y::L(vec![Y::I(e.val as i64), descr(r)]))).collect();
                    m.push((f.name.clone(), Y::M(vec![("_replace_enum".into(), Y::M(e))])));
                }
                _ => {}
            }
        }
    } else if m.is_empty() && modify.is_empty() && del.is_empty() && !x.fields.is_empty() && r.chance(1, 3) {
        let k = *r.pick(&["_prefix", "_suffix"]);
        m.push((k.into(), s("P_")));
    }
    if !modify.is_empty() {
        m.insert(0, ("_modify".into(), Y::M(modify)));
    }
    if !del.is_empty() {
        m.insert(0, ("_delete".into(), if r.chance(1, 2) { Y::L(del) } else { del.pop().unwrap() }));
    }
    if r.chance(1, 4) {
        let end = x.fields.iter().map(|f| f.off + f.width).max().unwrap_or(0);
        if end < x.size.unwrap_or(32) {
            m.push((
                "_add".into(),
                Y::M(vec![(
                    "NEWF".into(),
                    Y::M(vec![
                        ("description".into(), descr(r)),
                        ("bitOffset".into(), Y::I(end as i64)),
                        ("bitWidth".into(), Y::I(1)),
                    ]),
                )]),
            ));
        }
    }
    m
}

/// Rules for the content of one peripheral.
pub fn per_rules(r: &mut Rng, p: &Per) -> Map {
    let mut m = Map::new();
    let regs: Vec<&Reg> = p
        .items
        .iter()
        .filter_map(|i| match i {
            Item::R(x) if x.derived.is_none() && !x.name.starts_with("CH") => Some(x),
            _ => None,
        })
        .collect();
    let bases: Vec<&String> = p
        .items
        .iter()
        .filter_map(|i| match i {
            Item::R(x) => x.derived.as_ref(),
            _ => None,
        })
        .collect();
    let prefix = format!("{}_", p.name);
    if regs.iter().any(|x| x.name.starts_with(&prefix)) && r.chance(1, 2) {
        m.push(("_strip".into(), s(&prefix)));
    } else if bases.is_empty() && r.chance(1, 8) {
        let (k, v) = *r.pick(&[("_prefix", "PRE_"), ("_suffix", "_SUF"), ("_strip_end", "R")]);
        m.push((k.into(), s(v)));
    } else {
        let mut modify = Map::new();
        let mut del = vec![];
        for x in &regs {
            let plain = x.dim.is_none();
            match r.below(9) {
                0 if plain && regs.len() > 2 && del.is_empty() && !bases.contains(&&x.name) => del.push(s(&x.name)),
                1 | 2 if plain => modify.push((
                    x.name.clone(),
                    Y::M(vec![
                        ("description".into(), descr(r)),
                        ("resetValue".into(), Y::I(r.below(200) as i64)),
                        ("access".into(), s("read-write")),
                    ]),
                )),
                3..=6 => {
                    let rr = reg_rules(r, x);
                    if !rr.is_empty() {
                        let spec = match r.below(6) {
                            0 => format!("?~{}", x.name.replace("[%s]", "*").replace("%s", "*")),
                            1 => x.name.replace("[%s]", "*").replace("%s", "*"),
                            _ if plain => x.name.clone(),
                            _ => x.name.replace("[%s]", "*").replace("%s", "*"),
                        };
                        if !m.iter().any(|(k, _)| *k == spec) {
                            m.push((spec, Y::M(rr)));
                        }
                    }
                }
                _ => {}
            }
        }
        if r.chance(1, 3) {
            m.push((
                "_add".into(),
                Y::M(vec![(
                    format!("NEW{}", r.below(3)),
                    Y::M(vec![
                        ("description".into(), descr(r)),
                        ("addressOffset".into(), Y::I(0x300 + 4 * r.below(8) as i64)),
                        ("size".into(), Y::I(32)),
                        ("access".into(), s("read-only")),
                        (
                            "fields".into(),
                            Y::M(vec![(
                                "A".into(),
                                Y::M(vec![("description".into(), descr(r)), ("bitOffset".into(), Y::I(0)), ("bitWidth".into(), Y::I(2))]),
                            )]),
                        ),
                    ]),
                )]),
            ));
        }
        if r.chance(1, 2) {
            let named: Vec<&&Reg> = regs.iter().filter(|x| x.dim.is_none() && !modify.iter().any(|(k, _)| *k == x.name) && !del.iter().any(|d| matches!(d, Y::S(n) if *n == x.name))).collect();
            let clusters: Vec<(&String, bool)> = p.items.iter().filter_map(|i| match i { Item::C { name, dim, .. } => Some((name, dim.is_some())), _ => None }).collect();
            let arrays: Vec<&&Reg> = regs.iter().filter(|x| x.dim.is_some()).collect();
            match r.below(9) {
                0 if !named.is_empty() => {
                    let x = named[r.below(named.len() as u64) as usize];
                    m.push(("_copy".into(), Y::M(vec![("COPYR".into(), Y::M(vec![("_from".into(), s(&x.name)), ("addressOffset".into(), Y::I(0x3C0))]))])));
                }
                1 if !named.is_empty() => {
                    let x = named[r.below(named.len() as u64) as usize];
                    m.push(("_derive".into(), Y::M(vec![("DERIVR".into(), Y::M(vec![("_from".into(), s(&x.name)), ("addressOffset".into(), Y::I(0x3D0)), ("description".into(), descr(r))]))])));
                }
                2 => m.push(("_clear_fields".into(), if r.chance(1, 2) { s("*") } else { Y::L(vec![s("*R"), s("C*")]) })),
                3 if !clusters.is_empty() => {
                    let (c, dim) = clusters[0];
                    if dim {
                        m.push(("_clusters".into(), Y::M(vec![(c.replace("%s", "*"), Y::M(vec![("_add".into(), Y::M(vec![("CNEW".into(), Y::M(vec![("addressOffset".into(), Y::I(0x38)), ("description".into(), descr(r))]))]))]))])));
                    } else if r.chance(1, 2) {
                        m.push(("_expand_cluster".into(), match r.below(3) {
                            0 => s(c),
                            1 => Y::L(vec![s(c)]),
                            _ => Y::M(vec![(c.clone(), Y::M(vec![("_postindex".into(), s("__"))]))]),
                        }));
                    } else {
                        modify.push(("_clusters".into(), Y::M(vec![(c.clone(), Y::M(vec![("description".into(), descr(r))]))])));
                    }
                }
                4 if !arrays.is_empty() => {
                    let n = arrays[0].name.replace("[%s]", "*").replace("%s", "*");
                    m.push(("_expand_array".into(), Y::M(vec![(n, Y::M(vec![]))])));
                }
                5 => {
                    let add = ("_interrupts".to_string(), Y::M(vec![(format!("{}_NEWI", p.name), Y::M(vec![("description".into(), descr(r)), ("value".into(), Y::I(70 + r.below(9) as i64))]))]));
                    match m.iter_mut().find(|(k, _)| k == "_add") {
                        Some((_, Y::M(v))) => v.push(add),
                        _ => m.push(("_add".into(), Y::M(vec![add]))),
                    }
                }
                6 if del.is_empty() && !p.ints.is_empty() => {
                    m.push(("_delete".into(), Y::M(vec![("_interrupts".into(), Y::L(vec![s(&p.ints[0].0)]))])));
                }
                7 if !named.is_empty() => {
                    let x = named[0];
                    modify.push(("_registers".into(), Y::M(vec![(x.name.clone(), Y::M(vec![("displayName".into(), s("shown")), ("description".into(), descr(r))]))])));
                }
                _ => {}
            }
        }
        let gone = m.iter().any(|(k, _)| k == "_delete");
        if !gone && !p.ints.is_empty() && r.chance(1, 4) {
            modify.push(("_interrupts".into(), Y::M(vec![(p.ints[0].0.clone(), Y::M(vec![("description".into(), descr(r))]))])));
        }
        if !modify.is_empty() {
            m.push(("_modify".into(), Y::M(modify)));
        }
        if !del.is_empty() {
            m.push(("_delete".into(), Y::L(del)));
        }
        if p.chans >= 2 {
            match r.below(4) {
                0 => m.push(("_array".into(), Y::M(vec![("CH*_CONF".into(), Y::M(vec![]))]))),
                1 => m.push((
                    "_cluster".into(),
                    Y::M(vec![("CH%s".into(), Y::M(vec![("CH*_CONF".into(), Y::M(vec![("name".into(), s("CONF"))]))]))]),
                )),
                2 => {
                    if let Some(Item::R(x)) = p.items.iter().find(|i| matches!(i, Item::R(x) if x.name == "CH1_CONF")) {
                        let rr = reg_rules(r, x);
                        if !rr.is_empty() {
                            m.push(("CH*_CONF".into(), Y::M(rr)));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    r.shuffle(&mut m);
    m
}

/// Rules for the device itself; peripherals named in `busy` are left alone.
pub fn dev_rules(r: &mut Rng, d: &Dev, busy: &mut Vec<String>) -> Map {
    let mut m = Map::new();
    let mut modify = Map::new();
    for p in &d.pers {
        if r.chance(1, 3) {
            let mut v = vec![("description".into(), descr(r))];
            if r.chance(1, 3) {
                v.push(("groupName".into(), s("GRP")));
            }
            modify.push((p.name.clone(), Y::M(v)));
        }
    }
    if r.chance(1, 4) {
        modify.push(("description".into(), descr(r)));
        modify.push(("version".into(), s(format!("2.{}", r.below(50)))));
    }
    if r.chance(1, 8) {
        modify.push((
            "cpu".into(),
            Y::M(vec![
                ("name".into(), s("CM3")),
                ("revision".into(), s("r1p0")),
                ("endian".into(), s("little")),
                ("mpuPresent".into(), s("false")),
                ("fpuPresent".into(), s("false")),
                ("nvicPrioBits".into(), Y::I(4)),
                ("vendorSystickConfig".into(), s("false")),
            ]),
        ));
    }
    if !modify.is_empty() {
        m.push(("_modify".into(), Y::M(modify)));
    }
    if d.pers.len() > 2 && r.chance(1, 4) {
        if let Some(p) = d.pers.iter().find(|p| {
            !busy.contains(&p.name)
                && !d.pers.iter().any(|x| x.derived.as_ref() == Some(&p.name))
                && !m.iter().any(|(_, y)| matches!(y, Y::M(v) if v.iter().any(|(k, _)| *k == p.name)))
        }) {
            m.push(("_delete".into(), Y::L(vec![s(&p.name)])));
            busy.push(p.name.clone());
        }
    }
    if r.chance(1, 4) {
        m.push((
            "_add".into(),
            Y::M(vec![(
                "EXTRA".into(),
                Y::M(vec![
                    ("description".into(), descr(r)),
                    ("baseAddress".into(), Y::I(0x5000_0000)),
                    (
                        "addressBlock".into(),
                        Y::M(vec![("offset".into(), Y::I(0)), ("size".into(), Y::I(64)), ("usage".into(), s("registers"))]),
                    ),
                    (
                        "registers".into(),
                        Y::M(vec![(
                            "XR".into(),
                            Y::M(vec![("description".into(), descr(r)), ("addressOffset".into(), Y::I(0)), ("access".into(), s("read-only"))]),
                        )]),
                    ),
                    ("interrupts".into(), Y::M(vec![("XIRQ".into(), Y::M(vec![("description".into(), descr(r)), ("value".into(), Y::I(99))]))])),
                ]),
            )]),
        ));
    }
    let mentioned = |m: &Map, n: &String| m.iter().any(|(_, y)| matches!(y, Y::M(v) if v.iter().any(|(k, _)| k == n)) || matches!(y, Y::L(v) if v.iter().any(|k| matches!(k, Y::S(x) if x == n))));
    let idle: Vec<&Per> = d.pers.iter().filter(|p| !busy.contains(&p.name) && !mentioned(&m, &p.name)).collect();
    match r.below(12) {
        0 => m.push(("_clear_fields".into(), if r.chance(1, 2) { s("*") } else { Y::L(vec![s("T*"), s("*1")]) })),
        1 => {
            // move the content of a base to a peripheral derived from it
            if let Some(p) = idle.iter().find(|p| p.derived.as_ref().is_some_and(|b| idle.iter().any(|q| q.name == *b))) {
                let base = p.derived.clone().unwrap();
                m.push(("_rebase".into(), Y::M(vec![(p.name.clone(), s(&base))])));
            }
        }
        2 => {
            let v: Vec<&&Per> = idle.iter().filter(|p| p.derived.is_none()).collect();
            if v.len() > 1 {
                let (a, b) = (v[0].name.clone(), v[1].name.clone());
                m.push(("_derive".into(), Y::M(vec![(b, if r.chance(1, 2) { s(&a) } else { Y::M(vec![("_from".into(), s(&a)), ("description".into(), descr(r))]) })])));
            }
        }
        3 => {
            // a new name, for those derived from it as well
            if let Some(p) = idle.iter().find(|p| p.derived.is_none()) {
                let n = p.name.clone();
                let rule = (n.clone(), Y::M(vec![("name".into(), s(format!("{n}_NEW")))]));
                match m.iter_mut().find(|(k, _)| k == "_modify") {
                    Some((_, Y::M(v))) => v.push(rule),
                    _ => m.push(("_modify".into(), Y::M(vec![rule]))),
                }
            }
        }
        _ => {}
    }
    if r.chance(1, 6) {
        if let Some(p) = d.pers.iter().find(|p| p.derived.is_none() && !busy.contains(&p.name) && !mentioned(&m, &p.name)) {
            m.push((
                "_copy".into(),
                Y::M(vec![(
                    "COPYP".into(),
                    Y::M(vec![("from".into(), s(&p.name)), ("name".into(), s("COPYP")), ("baseAddress".into(), Y::I(0x5100_0000))]),
                )]),
            ));
        }
    }
    r.shuffle(&mut m);
    m
}

#[derive(Clone, Debug)]
pub struct YFile {
    pub path: String,
    pub map: Map,
    pub includes: Vec<String>, // as absolute paths (possibly of links)
    pub pad: usize,
}

/// Path of `to` as seen from the directory of `from`.
pub fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').filter(|c| !c.is_empty()).collect();
    let t: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
    let f = &f[..f.len() - 1];
    let mut k = 0;
    while k < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    let mut v: Vec<String> = f[k..].iter().map(|_| "..".to_string()).collect();
    v.extend(t[k..].iter().map(|s| s.to_string()));
    v.join("/")
}

#[derive(Clone, Debug)]
pub struct PatchSet {
    pub root: String,
    pub svd: String,
    /// every YAML file that gets opened besides the root (real paths), with repetition
    pub opened: Vec<String>,
    pub extra_svd: Option<String>,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct GraphOpt {
    pub files: u64,
    pub diamonds: bool,
    pub links: bool,
    pub empties: bool,
}

/// Writes a patch set for `dev` into the image: root at `dir`/name.yaml.
pub fn patch_set(r: &mut Rng, img: &mut Image, dev: &Dev, dir: &str, name: &str, svd: &str, g: GraphOpt) -> PatchSet {
    let root = format!("{dir}/{name}.yaml");
    let mut busy: Vec<String> = dev.pers.iter().filter(|_| r.chance(2, 3)).map(|p| p.name.clone()).collect();
    let mut dmap = dev_rules(r, dev, &mut busy);
    let mut extra_svd = None;
    if r.chance(1, 12) {
        // a second SVD is read for a copy
        let other = {
            let o = Opt::small(r);
            device(r, &o, "OTHER")
        };
        let p = other.pers.iter().find(|p| p.derived.is_none()).unwrap().name.clone();
        let path = format!("{dir}/other_src.svd");
        img.file(&path, other.xml());
        if !dmap.iter().any(|(k, _)| k == "_copy") {
            // the file name is resolved against the directory of the root file
            dmap.push((
                "_copy".into(),
                Y::M(vec![(
                    "FROMOTHER".into(),
                    Y::M(vec![("from".into(), s(format!("other_src.svd:{p}"))), ("baseAddress".into(), Y::I(0x5200_0000))]),
                )]),
            ));
            extra_svd = Some(path);
        }
    }
    let dirs = [dir.to_string(), format!("{dir}/common"), format!("{dir}/common/deep"), if r.chance(1, 12) { "/w/größen/µ".to_string() } else { "/w/shared".into() }];
    let mut files: Vec<YFile> = vec![YFile { path: root.clone(), map: vec![], includes: vec![], pad: 0 }];
    for k in 0..g.files {
        let d = r.pick(&dirs).clone();
        let mut path = format!("{d}/{name}_inc{k}.yaml");
        if k > 0 && r.chance(1, 4) {
            // the same file name in another directory
            let p = format!("{d}/{name}_inc{}.yaml", r.below(k));
            if files.iter().all(|f| f.path != p) {
                path = p;
            }
        }
        files.push(YFile { path, map: vec![], includes: vec![], pad: 0 });
    }
    if r.chance(1, 10) {
        let k = r.below(files.len() as u64) as usize;
        files[k].pad = r.range(5_000, 80_000) as usize;
    }
    // device-level rules go to the root or to one include
    let nf = files.len() as u64;
    for (k, y) in dmap {
        let t = if k == "_copy" || r.chance(1, 2) { 0 } else { r.below(nf) as usize };
        files[t].map.push((k, y));
    }
    let mut top = vec![true; files.len()];
    let mut parents: Vec<Vec<usize>> = vec![vec![]; files.len()];
    let mut per_level: Vec<Option<(usize, String)>> = vec![None; files.len()];
    let mut blocks: Vec<(String, Map)> = Vec::new();
    for p in dev.pers.iter().filter(|p| busy.contains(&p.name) && p.derived.is_none()) {
        if files[0].map.iter().any(|(k, y)| k == "_delete" && format!("{y:?}").contains(&format!("\"{}\"", p.name))) {
            continue;
        }
        let deleted = files.iter().any(|f| f.map.iter().any(|(k, y)| k == "_delete" && format!("{y:?}").contains(&format!("\"{}\"", p.name))));
        if deleted {
            continue;
        }
        let m = per_rules(r, p);
        if !m.is_empty() {
            blocks.push((p.name.clone(), m));
        }
    }
    for v in &dev.vigs {
        if r.chance(1, 5) {
            continue;
        }
        for (per, m) in &v.per {
            blocks.push((per.clone(), m.clone()));
        }
        for (key, m) in &v.dev {
            let t = if key == "_copy" || r.chance(1, 2) { 0 } else { r.below(nf) as usize };
            match files[t].map.iter_mut().find(|(k, _)| k == key) {
                Some((_, Y::M(old))) => {
                    let m: Map = m.iter().filter(|(k, _)| old.iter().all(|x| x.0 != *k)).cloned().collect();
                    old.extend(m)
                }
                Some(_) => {}
                None => files[t].map.push((key.clone(), Y::M(m.clone()))),
            }
        }
        for (key, l) in &v.devlist {
            let t = r.below(nf) as usize;
            let l: Vec<Y> = l.iter().map(s).collect();
            match files[t].map.iter_mut().find(|(k, _)| k == key) {
                Some((_, Y::L(old))) => old.extend(l),
                Some(_) => {}
                None => files[t].map.push((key.clone(), Y::L(l))),
            }
        }
    }
    // some includes hang below a peripheral instead of the top level
    for k in 1..files.len() {
        if r.chance(1, 4) && !blocks.is_empty() && files[k].map.is_empty() {
            let (per, m) = blocks[r.below(blocks.len() as u64) as usize].clone();
            if let Some(b) = blocks.iter_mut().find(|b| b.0 == per) {
                let cut = r.below(m.len() as u64 + 1) as usize;
                files[k].map.extend(m[..cut].to_vec());
                b.1 = m[cut..].to_vec();
            }
            top[k] = false;
            per_level[k] = Some((0, per));
        }
    }
    for (per, m) in blocks.clone() {
        // split a block between two top-level files at times
        let tops: Vec<usize> = (0..files.len()).filter(|k| top[*k]).collect();
        let a = *r.pick(&tops);
        let b = *r.pick(&tops);
        let cut = if a != b && r.chance(1, 3) { r.below(m.len() as u64 + 1) as usize } else { m.len() };
        if cut > 0 {
            files[a].map.push((per.clone(), Y::M(m[..cut].to_vec())));
        }
        if cut < m.len() {
            files[b].map.push((per.clone(), Y::M(m[cut..].to_vec())));
        }
        if r.chance(1, 10) && cut > 0 && a != b {
            // the same rule twice: reported on stdout and ignored
            let first = m[0].clone();
            if let Some((_, Y::M(v))) = files[b].map.iter_mut().find(|(k, _)| *k == per) {
                if !v.iter().any(|(k, _)| *k == first.0) {
                    v.push(first);
                }
            } else {
                files[b].map.push((per.clone(), Y::M(vec![first])));
            }
        }
    }
    // graph
    for k in 1..files.len() {
        if top[k] {
            let cand: Vec<usize> = (0..k).filter(|j| top[*j]).collect();
            let p = *r.pick(&cand);
            parents[k].push(p);
            if g.diamonds && cand.len() > 1 && r.chance(1, 2) {
                let p2 = *r.pick(&cand);
                if p2 != p {
                    parents[k].push(p2);
                }
            }
        } else {
            // below a peripheral: from the root, or nested in another peripheral-level file of the same peripheral
            let per = per_level[k].as_ref().unwrap().1.clone();
            let cand: Vec<usize> = (1..k).filter(|j| per_level[*j].as_ref().map_or(false, |x| x.1 == per)).collect();
            if !cand.is_empty() && r.chance(1, 2) {
                parents[k].push(*r.pick(&cand));
            } else {
                let tops: Vec<usize> = (0..files.len()).filter(|j| top[*j]).collect();
                per_level[k].as_mut().unwrap().0 = *r.pick(&tops);
            }
        }
    }
    if g.empties && files.len() > 1 && r.chance(1, 2) {
        let k = r.range(1, files.len() as u64 - 1) as usize;
        // an empty include: nothing in it, nothing below it
        let used = (0..files.len()).any(|j| parents[j].contains(&k)) || per_level.iter().flatten().any(|x| x.0 == k);
        if !used {
            files[k].map.clear();
        }
    }
    // link targets and include lists
    let mut inc_lists: Vec<Vec<String>> = vec![vec![]; files.len()];
    for k in 1..files.len() {
        let mut target = files[k].path.clone();
        if g.links && r.chance(1, 3) {
            let l = format!("{dir}/links/l{k}.yaml");
            img.link(&l, &if r.chance(1, 2) { target.clone() } else { relative(&l, &target) });
            target = l;
        }
        for p in parents[k].clone() {
            let rel = relative(&files[p].path, &target);
            let rel = match r.below(5) {
                0 => format!("./{rel}"),
                1 => target.clone(),
                _ => rel,
            };
            inc_lists[p].push(rel);
            let real = files[k].path.clone();
            files[p].includes.push(real);
        }
        if let (Some((p, per)), true) = (&per_level[k], parents[k].is_empty()) {
            let rel = relative(&files[*p].path, &target);
            let p = *p;
            let real = files[k].path.clone();
            files[p].includes.push(real);
            let e = files[p].map.iter_mut().find(|(n, _)| n == per);
            let inc = ("_include".to_string(), Y::L(vec![s(rel.clone())]));
            match e {
                Some((_, Y::M(v))) => match v.iter_mut().find(|(n, _)| n == "_include") {
                    Some((_, Y::L(l))) => l.push(s(rel)),
                    _ => v.push(inc),
                },
                _ => files[p].map.push((per.clone(), Y::M(vec![inc]))),
            }
        }
    }
    // includes below a register or cluster: read where the peripheral around it includes something
    if g.files > 0 {
        let mut places: Vec<(usize, Option<String>, String)> = vec![];
        for (k, f) in files.iter().enumerate() {
            let plain = |(n, y): &(String, Y)| if n.starts_with('_') { None } else if let Y::M(v) = y { Some((n.clone(), v.clone())) } else { None };
            for (n, v) in f.map.iter().filter_map(plain) {
                if per_level[k].is_some() && !v.is_empty() {
                    places.push((k, None, n));
                } else if per_level[k].is_none() && v.iter().any(|x| x.0 == "_include") {
                    for (m, w) in v.iter().filter_map(plain) {
                        if !w.is_empty() {
                            places.push((k, Some(n.clone()), m));
                        }
                    }
                }
            }
        }
        if !places.is_empty() && r.chance(3, 4) {
            let (k, per, key) = r.pick(&places).clone();
            let path = format!("{}/{name}_reg.yaml", r.pick(&dirs));
            let rel = relative(&files[k].path, &path);
            let m = match &per {
                None => &mut files[k].map,
                Some(p) => match &mut files[k].map.iter_mut().find(|(n, _)| n == p).unwrap().1 {
                    Y::M(v) => v,
                    _ => unreachable!(),
                },
            };
            let Y::M(v) = &mut m.iter_mut().find(|(n, _)| *n == key).unwrap().1 else { unreachable!() };
            let cut = r.below(v.len() as u64 + 1) as usize;
            let moved: Map = v.drain(cut..).collect();
            v.push(("_include".into(), if r.chance(1, 2) { s(rel) } else { Y::L(vec![s(rel)]) }));
            files[k].includes.push(path.clone());
            files.push(YFile { path, map: moved, includes: vec![], pad: 0 });
            inc_lists.push(vec![]);
        }
    }
    for (k, f) in files.iter_mut().enumerate() {
        let mut m = f.map.clone();
        if !inc_lists[k].is_empty() {
            let l: Vec<Y> = inc_lists[k].iter().map(s).collect();
            let y = if l.len() == 1 && r.chance(1, 2) { l[0].clone() } else { Y::L(l) };
            m.insert(r.below(m.len() as u64 + 1) as usize, ("_include".into(), y));
        }
        if k == 0 {
            m.insert(0, ("_svd".into(), s(relative(&root, svd))));
        }
        let mut text = yaml(&m);
        if m.is_empty() {
            text = if g.empties && r.chance(1, 2) { String::new() } else { "{}\n".into() };
        }
        if f.pad > 0 {
            let mut c = String::new();
            while c.len() < f.pad {
                c.push_str("# padding padding padding padding µ\n");
            }
            text = c + &text;
        }
        if !text.is_empty() && r.chance(1, 15) {
            match r.below(4) {
                0 => text = text.replace('\n', "\r\n"),
                1 => text = format!("---\n{text}"),
                2 => text = format!("# {name}\n\n{text}...\n"),
                _ => {
                    text.pop();
                }
            }
        }
        img.file(&f.path, text);
    }
    // which files get opened, how often
    let mut opened = vec![];
    fn walk(files: &[YFile], k: &str, seen: &mut Vec<String>, depth: usize) {
        if depth > 30 {
            return;
        }
        if let Some(f) = files.iter().find(|f| f.path == k) {
            for i in &f.includes {
                seen.push(i.clone());
                walk(files, i, seen, depth + 1);
            }
        }
    }
    walk(&files, &root, &mut opened, 0);
    PatchSet { root, svd: svd.into(), opened, extra_svd }
}
