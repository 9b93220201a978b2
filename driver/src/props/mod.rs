//! The properties: scenario generators and oracles.
use crate::case::*;
use crate::rng::{self, Rng};
use crate::sim::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod py;
pub mod pylib;

/// Receives scenarios; false: stop exploring.
pub type Sink<'a> = &'a mut dyn FnMut(Scenario, &mut Exec) -> bool;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// groups of scenarios explored (quick, thorough)
    fn count(&self) -> (u64, u64);
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// conditions that a sound exploration must have hit
    fn probes(&self) -> &'static [&'static str] {
        &[]
    }
    fn explore(&self, i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink);
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check;
    /// May the minimiser try this scenario? (preconditions that check does not look at)
    fn sane(&self, _s: &Scenario) -> bool {
        true
    }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(c01::P),
        Box::new(c02::P),
        Box::new(c03::P),
        Box::new(c04::P),
        Box::new(c05::P),
        Box::new(c06::P),
        Box::new(c07::P),
        Box::new(c08::P),
        Box::new(c09::P),
        Box::new(c10::P),
        Box::new(c11::P),
        Box::new(c12::P),
        Box::new(c13::P),
        Box::new(c14::P),
        Box::new(c15::P),
        Box::new(py::Complete),
        Box::new(py::Contained),
        Box::new(py::Same),
        Box::new(py::Deps),
        Box::new(pylib::P),
    ]
}

pub fn scenario(prop: &str, shape: &str, c: &Case, run: RunSpec) -> Scenario {
    let mut s = Scenario::single(prop, shape, &c.image, run);
    s.facts.insert("cmd".into(), vec![format!("{:?}", c.cmd)]);
    s.facts.insert("out".into(), c.out.iter().cloned().collect());
    s.facts.insert("dir".into(), c.dir.iter().cloned().collect());
    s.facts.insert("inputs".into(), c.inputs.clone());
    s
}

/// XML text, with or without a byte order mark?
pub fn is_xml(v: &[u8]) -> bool {
    v.strip_prefix("\u{feff}".as_bytes()).unwrap_or(v).starts_with(b"<?xml")
}

pub fn is_html(s: &Scenario) -> bool {
    s.fact("cmd").first().map_or(false, |c| c == "Html")
}
/// What a run delivered, for comparisons.
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Delivered {
    pub exit: String,
    pub stdout: Vec<u8>,
    pub files: BTreeMap<String, Blob>,
}
pub fn sorted_lines(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    v.sort();
    v.join(&b'\n')
}
pub fn files_of(out: &[String], dir: &[String], o: &Outcome) -> BTreeMap<String, Blob> {
    let mut m = BTreeMap::new();
    for p in out {
        if let Some(e) = o.files.get(p) {
            m.insert(p.clone(), e.node.data.clone());
        }
    }
    for d in dir {
        let pre = format!("{d}/");
        for (p, e) in o.files.range(pre.clone()..).take_while(|(p, _)| p.starts_with(&pre)) {
            if e.node.kind == Kind::File && !p[pre.len()..].starts_with('.') {
                m.insert(p.clone(), e.node.data.clone());
            }
        }
    }
    m
}
pub fn delivered(s: &Scenario, o: &Outcome) -> Delivered {
    let p = &o.procs[0];
    Delivered {
        exit: p.show(),
        stdout: if is_html(s) { sorted_lines(&p.out) } else { p.out.clone() },
        files: files_of(s.fact("out"), s.fact("dir"), o),
    }
}
pub fn clip(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.chars().count() > 300 {
        format!("{}... ({} bytes)", t.chars().take(300).collect::<String>(), b.len())
    } else {
        t.into_owned()
    }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let show = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(20).min(v.len())..(k + 60).min(v.len())]).into_owned();
    format!("first difference at byte {k} of {} (expected {}): {:?} instead of {:?}", a.len(), b.len(), show(a), show(b))
}
/// Same status, standard output and files?
pub fn same(got: &Delivered, want: &Delivered) -> Check {
    if got.exit != want.exit {
        return violation("exit", format!("ends with {} instead of {}", got.exit, want.exit));
    }
    if got.stdout != want.stdout {
        return violation("stdout", format!("standard output: {}", first_diff(&got.stdout, &want.stdout)));
    }
    same_files(got, want, true)
}
pub fn same_files(got: &Delivered, want: &Delivered, exact: bool) -> Check {
    for (p, w) in &want.files {
        match got.files.get(p) {
            None => return violation("missing", format!("{p} is missing")),
            Some(g) if g != w => return violation("content", format!("{p}: {}", first_diff(g.bytes(), w.bytes()))),
            _ => {}
        }
    }
    if exact {
        if let Some(p) = got.files.keys().find(|p| !want.files.contains_key(*p)) {
            return violation("extra", format!("{p} appears"));
        }
    }
    Ok(())
}

pub const ERR_READ: &[i32] = &[libc::EIO, libc::EIO, libc::ESTALE, libc::ENOMEM, libc::ETIMEDOUT, libc::EACCES];
pub const ERR_OPEN: &[i32] = &[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EPERM, libc::ESTALE];
pub const ERR_WRITE: &[i32] = &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EROFS, libc::ESTALE];
pub const ERR_OUT: &[i32] = &[libc::EPIPE, libc::ENOSPC, libc::EIO];
pub const ERR_META: &[i32] = &[libc::EIO, libc::EACCES, libc::ESTALE, libc::ENOMEM, libc::EPERM];
pub const ERR_DIR: &[i32] = &[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EDQUOT];

/// An error this operation may really return; None: errors of it are not simulated.
pub fn error_for(r: &mut Rng, o: u32) -> Option<i64> {
    let l = match o {
        op::OPEN => {
            if r.chance(1, 3) {
                ERR_WRITE
            } else {
                ERR_OPEN
            }
        }
        op::READ => ERR_READ,
        op::WRITE | op::COPY => ERR_WRITE,
        op::OUT => ERR_OUT,
        op::STAT | op::REALPATH | op::READDIR | op::ACCESS | op::READLINK | op::LSEEK => ERR_META,
        op::MKDIR | op::RENAME | op::LINK | op::UNLINK | op::CHMOD | op::TRUNC | op::FSYNC => ERR_DIR,
        _ => return None,
    };
    Some(*r.pick(l) as i64)
}

/// One operation of a log: first a kind of operation on a path, then one occurrence of it.
pub fn pick_rec<'a>(r: &mut Rng, log: &'a [Rec], ok: impl Fn(&Rec) -> bool) -> Option<&'a Rec> {
    let mut groups: BTreeMap<(u32, &str), Vec<usize>> = BTreeMap::new();
    for (k, x) in log.iter().enumerate() {
        if ok(x) {
            groups.entry((x.op, &x.path)).or_default().push(k);
        }
    }
    if groups.is_empty() {
        return None;
    }
    let n = r.below(groups.len() as u64) as usize;
    let g = groups.values().nth(n).unwrap();
    let k = match r.below(4) {
        0 => 0,
        1 => g.len() - 1,
        _ => r.below(g.len() as u64) as usize,
    };
    Some(&log[g[k]])
}

/// Random environment and schedule parameters that must not matter.
pub fn shake(r: &mut Rng, c: &mut Cfg) {
    c.hash_seed = r.u64();
    if r.chance(1, 2) {
        c.ino_seed = r.u64();
        c.pid_base = r.range(2, 4_000_000);
    }
    c.time_seed = r.u64();
    c.fault_seed = r.u64();
    c.sched_seed = r.u64();
    if r.chance(1, 3) {
        c.jitter = r.below(3_000_000_000);
    }
    c.gran = *r.pick(&[1, 1, 1_000_000, 1_000_000_000, 2_000_000_000]);
}
pub fn schedule(r: &mut Rng, c: &mut Cfg) {
    c.sched_mode = r.range(1, 3);
    c.sched_p = *r.pick(&[10, 200, 2000, 12000, 40000]);
    c.sched_seed = r.u64();
    if r.chance(1, 3) {
        c.spurious_p = *r.pick(&[500, 5000, 30000]);
    }
}
pub fn alloc_points(r: &mut Rng, total: u64) -> Vec<u64> {
    let n = *r.pick(&[0u64, 0, 3, 10, 40]);
    let mut v: Vec<u64> = (0..n).map(|_| r.range(1, total.max(1))).collect();
    v.sort();
    v.dedup();
    v
}

/// Preemption in svdtools' own code, between allocations and system calls.
pub fn code_points(r: &mut Rng, c: &Counters, run: &mut RunSpec) {
    if r.chance(1, 3) {
        run.cfg.flags |= SHARED;
    }
    let n = *r.pick(&[0u64, 0, 3, 20, 100, 600]);
    run.code_points = (0..n).map(|_| r.range(1, c.code.max(1))).collect();
    run.code_points.sort();
    run.code_points.dedup();
}

/// Put something where the output will go.
pub fn litter(r: &mut Rng, c: &mut Case, stale: Option<&Outcome>) -> &'static str {
    let kind = r.below(10);
    let mut did = "absent";
    let mut put = |img: &mut Image, p: &str, good: Option<&Blob>, r: &mut Rng| {
        let mut old = good.map(|b| b.bytes().to_vec()).unwrap_or_else(|| b"previous contents\n".to_vec());
        did = match kind {
            0 => return,
            1 => {
                old.truncate(r.below(old.len() as u64 + 1) as usize);
                "shorter"
            }
            2 => {
                for _ in 0..r.range(1, 4000) {
                    old.extend_from_slice(b"<!-- tail of an old file -->\n");
                }
                "longer"
            }
            3 => {
                old = (0..r.below(9000)).map(|_| r.below(256) as u8).collect();
                "garbage"
            }
            4 => {
                old.clear();
                "empty"
            }
            5 => {
                old.extend_from_slice(r.pick(&["\n", " \n", "\n\n\n", "\r\n", "\t", "  "]).as_bytes());
                "white space at the end"
            }
            6 => {
                while old.last().is_some_and(|b| b.is_ascii_whitespace()) {
                    old.pop();
                }
                "no line end"
            }
            7 => {
                old = String::from_utf8_lossy(&old).replace('\n', "\r\n").into_bytes();
                "other line ends"
            }
            8 => {
                if !old.is_empty() {
                    let k = r.below(old.len() as u64) as usize;
                    old[k] ^= 1 << r.below(7);
                }
                "one byte"
            }
            _ => {
                for b in old.iter_mut() {
                    if r.chance(1, 50) {
                        *b = b'#';
                    }
                }
                "same length"
            }
        };
        img.put(p, old, T0 + r.below(3_000_000_000_000) as i64);
    };
    if let Some(p) = c.out.clone() {
        let good = stale.and_then(|o| o.files.get(&p)).map(|e| &e.node.data);
        if !matches!(c.image.0.get(&p).map(|n| n.kind), Some(Kind::Null) | Some(Kind::Full) | Some(Kind::Dir)) {
            put(&mut c.image, &p, good, r);
        }
    }
    if let (Some(d), Some(o)) = (c.dir.clone(), stale) {
        let pre = format!("{d}/");
        for (p, e) in o.files.range(pre.clone()..).take_while(|(p, _)| p.starts_with(&pre)) {
            if e.node.kind == Kind::File && !c.inputs.contains(p) && r.chance(1, 2) {
                put(&mut c.image, p, Some(&e.node.data), r);
            }
        }
    }
    did
}

/// Last operation that reads input, in an undisturbed run.
pub fn last_input<'a>(inputs: &[String], o: &'a Outcome) -> Option<&'a Rec> {
    o.log.iter().rev().find(|x| matches!(x.op, op::OPEN | op::READ) && x.err == 0 && inputs.contains(&x.path))
}

pub fn fresh_html(s: &Image, dir: &str, keep: &[String]) -> Image {
    let mut i = s.clone();
    let pre = format!("{dir}/");
    i.0.retain(|p, n| !p.starts_with(&pre) || keep.contains(p) || (n.kind == Kind::Dir && keep.iter().any(|k| k.starts_with(&format!("{p}/")))));
    i
}

/// The parts of an html run's result that belong to one input: (page, copy).
#[derive(Clone, Debug)]
pub struct One {
    pub page: String,
    pub page_data: Blob,
    pub copy: Option<(String, Blob)>,
}
/// What html makes of one input alone, in an empty directory. None if it fails.
pub fn one(ex: &mut Exec, img: &Image, dir: &str, input: &str) -> Option<One> {
    let mut i = Image::skeleton();
    let node = img.0.get(input)?.clone();
    // The run may have reached it by another, valid UTF-8 path; the result does not depend on the path.
    let (folder, name) = input.rsplit_once('/')?;
    let odd = folder.chars().any(|c| ('\u{f800}'..='\u{f8ff}').contains(&c));
    let moved = format!("/w/odd/{name}");
    let input = if odd { moved.as_str() } else { input };
    i.0.insert(input.to_string(), node);
    i.dir(&input[..input.rfind('/').unwrap()]);
    i.dir(&dir[..dir.rfind('/').unwrap()]);
    let mut a = argv("html");
    a.extend([dir.to_string(), input.to_string()]);
    let o = ex.reference("svdtools", &i, &ProcSpec { argv: a, env: vec![], cwd: "/w".into() });
    if !o.procs[0].ok() {
        return None;
    }
    let f = files_of(&[], &[dir.to_string()], &o);
    let copy = format!("{dir}/{}", &input[input.rfind('/').unwrap() + 1..]);
    let page = f.iter().find(|(p, _)| p.ends_with(".html") && **p != format!("{dir}/index.html") && **p != copy && *p != input)?;
    Some(One {
        page: page.0.clone(),
        page_data: page.1.clone(),
        copy: if copy == input { None } else { f.get(&copy).map(|b| (copy, b.clone())) },
    })
}
/// The real paths of the SVD files an html command line names and that exist, and its directory.
pub fn html_args(img: &Image, p: &ProcSpec) -> (String, Vec<String>) {
    let real = |a: &String| {
        let x = abs(&p.cwd, a);
        img.real(&x).unwrap_or(x)
    };
    let dir = real(&p.argv[2]);
    (dir, p.argv[3..].iter().map(real).filter(|x| img.get(x).is_some()).collect())
}

pub fn describe(c: &Case) -> String {
    c.proc.argv.join(" ")
}
pub fn uniq<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    v.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect()
}
pub fn bit(o: u32) -> u32 {
    1 << o
}
pub fn rng_of(i: u64) -> Rng {
    Rng::new(rng::mix(i, 3))
}

/// Change bytes of a text so that it is still likely to be accepted: words in descriptions.
pub fn edit_text(r: &mut Rng, t: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(t).into_owned();
    let n = r.below(900);
    for (a, b) in [
        ("<version>", format!("<version>{n}.")),
        ("Enable", format!("Enabled{n}")),
        ("status", format!("state {n}")),
        ("clock", format!("clk{n}")),
        ("channel", "ch".into()),
        ("of", format!("OF{n}")),
    ] {
        if s.contains(a) && r.chance(2, 3) {
            return s.replace(a, &b).into_bytes();
        }
    }
    let mut v = s.into_bytes();
    if is_xml(&v) {
        let extra = format!("<!-- edit {n} -->\n");
        v.extend(extra.bytes());
    } else {
        v.extend(format!("# edit {n}\n").bytes());
    }
    v
}

/// Some fault of any kind (besides outside edits), aimed at a run like `o`.
pub fn any_fault(r: &mut Rng, o: &Outcome, run: &mut RunSpec) {
    match r.below(16) {
        0..=4 => {
            let Some(x) = pick_rec(r, &o.log, |x| !matches!(x.op, op::CLOSE | op::GETCWD | op::ERRW)) else { return };
            let Some(e) = error_for(r, x.op) else { return };
            let mut f = Fault::at(FaultKind::Error, x.idx as u64, e);
            if r.chance(1, 2) {
                f.to = u64::MAX;
                f.ops = bit(x.op);
                f.max = *r.pick(&[0, 0, 1, 3]);
                f.prob = *r.pick(&[65536, 65536, 20000]);
                if r.chance(1, 2) && !x.path.is_empty() && !x.path.starts_with('<') {
                    f.path = Some(x.path.rsplit('/').next().unwrap_or("").to_string());
                }
            }
            run.faults.push(f);
        }
        5..=8 => {
            let k = match pick_rec(r, &o.log, |_| true) {
                Some(x) if r.chance(2, 3) => x.idx as u64,
                _ => r.range(1, o.c.ioop.max(1)),
            };
            run.faults.push(Fault::at(*r.pick(&[FaultKind::KillBefore, FaultKind::KillAfter, FaultKind::KillMid]), k, *r.pick(&[-1, 0, 1, 9])));
        }
        9 => run.faults.push(Fault::at(FaultKind::DiskFull, r.range(1, o.c.ioop.max(1)), *r.pick(&[0, 1, 300, 5000]))),
        10 => {
            let mut f = Fault::any(FaultKind::Error, bit(op::OUT), 65536, *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]) as i64);
            f.max = *r.pick(&[0, 1]);
            run.faults.push(f);
        }
        11 | 12 => {
            let k = r.range(1, o.c.allocs.max(1));
            run.cfg.alloc_fail_from = k;
            run.cfg.alloc_fail_to = *r.pick(&[k, k, k + 4, u64::MAX - 1]);
        }
        13 => {
            let m = bit(op::READ) | bit(op::WRITE) | bit(op::OUT);
            let mut f = Fault::any(FaultKind::Error, m, *r.pick(&[2000, 20000]), libc::EINTR as i64);
            f.max = 4000;
            run.faults.push(f);
            let mut f = Fault::any(FaultKind::Short, m | bit(op::COPY), *r.pick(&[2000, 40000]), *r.pick(&[0, 1, 100]));
            f.max = 4000;
            run.faults.push(f);
        }
        14 => {
            if run.cfg.ncpu > 1 {
                run.cfg.thread_fail_from = r.range(1, run.cfg.ncpu);
                run.cfg.thread_fail_to = run.cfg.thread_fail_from + r.below(3);
            }
        }
        _ => {
            let k = r.range(1, o.c.ioop.max(1));
            run.faults.push(Fault::at(FaultKind::Clock, k, *r.pick(&[-86_400_000_000_000i64, -1_000_000_000, 3_600_000_000_000])));
        }
    }
}

/// The tree without what the command is to produce.
pub fn clean(img: &Image, out: &[String], dir: &[String], keep: &[String]) -> Image {
    let mut i = img.clone();
    for p in out {
        i.0.remove(p);
    }
    for d in dir {
        i = fresh_html(&i, d, keep);
        if !keep.iter().any(|k| k.starts_with(&format!("{d}/"))) {
            i.0.remove(d);
        }
    }
    i
}

/// A run that has no reason not to end.
pub fn stuck(run: &RunSpec, o: &Outcome) -> Check {
    violation("stuck", format!("{}: {:?} {}; {}", run.procs[0].argv.join(" "), o.verdict, o.msg, c02::faults(run, o)))
}
