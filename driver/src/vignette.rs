//! Ready-made peripherals with rarely used notations, and rules that fit them (vignettes.txt).
use crate::genpatch::{Map, Y};
use crate::gensvd::{esc, text};
use crate::rng::Rng;

const TEXT: &str = include_str!("vignettes.txt");
const TEXT_PY: &str = include_str!("vignettes_py.txt");
thread_local! {
    /// Cases for the Python package: what it can handle
    pub static PYTHON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn source() -> &'static str {
    if PYTHON.get() {
        TEXT_PY
    } else {
        TEXT
    }
}

/// One vignette with its placeholders filled in
#[derive(Clone, Debug, Default)]
pub struct Vig {
    pub xml: String,
    /// rules below a peripheral specification
    pub per: Vec<(String, Map)>,
    /// rules of the device: key, then what to add below it
    pub dev: Vec<(String, Map)>,
    pub devlist: Vec<(String, Vec<String>)>,
}

pub fn count() -> usize {
    source().matches("\n=== ").count()
}

fn fill(r: &mut Rng, t: &str, idx: usize, n: u64, xml: bool) -> String {
    let mut o = String::new();
    let mut rest = t;
    while let Some(a) = rest.find('{') {
        o.push_str(&rest[..a]);
        rest = &rest[a..];
        let b = match rest[1..].find('}') {
            Some(k) if k <= 2 => k + 1,
            _ => {
                o.push('{');
                rest = &rest[1..];
                continue;
            }
        };
        let v = match &rest[1..b] {
            "P" => format!("V{idx}"),
            "B" => format!("0x{:X}", 0x6000_0000 + 0x10000 * idx),
            "B2" => format!("0x{:X}", 0x6000_1000 + 0x10000 * idx),
            "B3" => format!("0x{:X}", 0x6000_2000 + 0x10000 * idx),
            "I" => format!("{}", 80 + 2 * idx),
            "J" => format!("{}", 81 + 2 * idx),
            "N" => format!("{n}"),
            "D" if xml => esc(&text(r)),
            "D" => text(r).replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"),
            _ => rest[..=b].to_string(),
        };
        o.push_str(&v);
        rest = &rest[b + 1..];
    }
    o + rest
}

/// Entries of a block of YAML, each kept as the text it is
fn entries(t: &str) -> Map {
    let mut m = Map::new();
    for l in t.lines() {
        if l.starts_with(' ') {
            if let Some((_, Y::Raw(b))) = m.last_mut() {
                b.push('\n');
                b.push_str(&l[2..]);
            }
        } else if !l.trim().is_empty() {
            let (k, v) = if let Some(q) = l.strip_prefix('"') {
                let e = q.find('"').unwrap();
                (&q[..e], q[e + 1..].trim_start_matches(':'))
            } else {
                l.split_once(':').unwrap_or_else(|| panic!("vignette line {l:?}"))
            };
            m.push((k.to_string(), Y::Raw(v.trim().to_string())));
        }
    }
    m
}

pub fn get(r: &mut Rng, which: usize, idx: usize) -> Vig {
    let src = source().split("\n=== ").nth(which + 1).unwrap();
    let mut v = Vig::default();
    let n = r.below(64);
    for part in src.split("\n--- ").skip(1) {
        let (head, body) = part.split_once('\n').unwrap_or((part, ""));
        let head = fill(r, head, idx, n, false);
        let body = fill(r, body, idx, n, head == "xml");
        match head.split_once(' ') {
            None if head == "xml" => v.xml = body,
            Some(("per", p)) => v.per.push((p.into(), entries(&body))),
            Some(("dev", k)) => v.dev.push((k.into(), entries(&body))),
            Some(("devlist", k)) => v.devlist.push((k.into(), body.lines().map(|l| l.to_string()).collect())),
            _ => panic!("vignette head {head}"),
        }
    }
    v
}

pub fn some(r: &mut Rng) -> Vec<Vig> {
    let n = if r.chance(1, 3) { 0 } else { r.range(1, 3) as usize };
    (0..n)
        .map(|i| {
            let w = match std::env::var("VIGNETTE") {
                Ok(v) => v.parse().unwrap(),
                _ => r.below(count() as u64) as usize,
            };
            get(r, w, i)
        })
        .collect()
}
