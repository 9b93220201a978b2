//! Talks to the simulated kernel (simkernel/sim.c): one fork server per binary and worker.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Default)]
pub struct Blob(pub Arc<Vec<u8>>);
impl Blob {
    pub fn bytes(&self) -> &[u8] {
        &self.0
    }
}
impl From<Vec<u8>> for Blob {
    fn from(v: Vec<u8>) -> Blob {
        Blob(Arc::new(v))
    }
}
impl From<&str> for Blob {
    fn from(v: &str) -> Blob {
        Blob(Arc::new(v.as_bytes().to_vec()))
    }
}
impl From<String> for Blob {
    fn from(v: String) -> Blob {
        Blob(Arc::new(v.into_bytes()))
    }
}
impl std::fmt::Debug for Blob {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = String::from_utf8_lossy(&self.0);
        write!(f, "{:?}({})", s.chars().take(60).collect::<String>(), self.0.len())
    }
}
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.starts_with("hex:") => s.serialize_str(t),
            _ => s.serialize_str(&format!("hex:{}", self.0.iter().map(|b| format!("{b:02x}")).collect::<String>())),
        }
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Blob, D::Error> {
        let s = String::deserialize(d)?;
        Ok(match s.strip_prefix("hex:") {
            Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect::<Vec<_>>().into(),
            None => s.into(),
        })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Kind {
    Dir = 1,
    File = 2,
    Link = 3,
    Null = 4,
    Full = 5,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Node {
    pub kind: Kind,
    pub mode: u32,
    pub mtime: i64,
    #[serde(default)]
    pub data: Blob,
}

/// A directory tree; parents sort before their children.
#[derive(Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct Image(pub BTreeMap<String, Node>);

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct Cfg {
    pub ncpu: u64,
    pub hash_seed: u64,
    pub wall0: u64,
    pub mono0: u64,
    pub tick: u64,
    pub jitter: u64,
    pub gran: u64,
    pub sched_mode: u64,
    pub sched_seed: u64,
    pub sched_p: u64,
    pub fault_seed: u64,
    pub step_cap: u64,
    pub alloc_cap: u64,
    pub readdir_mode: u64,
    pub ino_seed: u64,
    pub pid_base: u64,
    pub alloc_ns: u64,
    pub alloc_fail_from: u64,
    pub alloc_fail_to: u64,
    pub thread_fail_from: u64,
    pub thread_fail_to: u64,
    pub spurious_p: u64,
    pub flags: u64,
    pub time_seed: u64,
    /// branches, loads and stores of svdtools' own code
    pub code_cap: u64,
    /// layout of the heap, 0: as it comes
    pub heap_seed: u64,
}
/// every access to memory that threads may share is a scheduling point
pub const SHARED: u64 = 1;
/// all processes have the same id, as in containers that share a directory
pub const SAME_PID: u64 = 2;
pub const WALL0: u64 = 1_700_000_000_000_000_000;
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            ncpu: 1,
            hash_seed: 1,
            wall0: WALL0,
            mono0: 1_000_000_000,
            tick: 1000,
            jitter: 0,
            gran: 1,
            sched_mode: 0,
            sched_seed: 1,
            sched_p: 0,
            fault_seed: 1,
            step_cap: 4_000_000,
            alloc_cap: 60_000_000,
            readdir_mode: 0,
            ino_seed: 0,
            pid_base: 4000,
            alloc_ns: 1,
            alloc_fail_from: u64::MAX,
            alloc_fail_to: 0,
            thread_fail_from: u64::MAX,
            thread_fail_to: 0,
            spurious_p: 0,
            flags: 0,
            time_seed: 1,
            code_cap: 1_000_000_000,
            heap_seed: 0,
        }
    }
}
impl Cfg {
    fn words(&self) -> [u64; 26] {
        [
            self.ncpu, self.hash_seed, self.wall0, self.mono0, self.tick, self.jitter, self.gran, self.sched_mode,
            self.sched_seed, self.sched_p, self.fault_seed, self.step_cap, self.alloc_cap, self.readdir_mode,
            self.ino_seed, self.pid_base, self.alloc_ns, self.alloc_fail_from, self.alloc_fail_to,
            self.thread_fail_from, self.thread_fail_to, self.spurious_p, self.flags, self.time_seed,
            self.code_cap, self.heap_seed,
        ]
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct ProcSpec {
    pub argv: Vec<String>,
    #[serde(default)]
    pub env: Vec<String>,
    pub cwd: String,
}

pub mod op {
    pub const OPEN: u32 = 0;
    pub const READ: u32 = 1;
    pub const WRITE: u32 = 2;
    pub const CLOSE: u32 = 3;
    pub const LSEEK: u32 = 4;
    pub const STAT: u32 = 5;
    pub const MKDIR: u32 = 6;
    pub const UNLINK: u32 = 7;
    pub const RENAME: u32 = 8;
    pub const LINK: u32 = 9;
    pub const READLINK: u32 = 11;
    pub const REALPATH: u32 = 12;
    pub const CHMOD: u32 = 13;
    pub const TRUNC: u32 = 14;
    pub const FSYNC: u32 = 15;
    pub const READDIR: u32 = 17;
    pub const COPY: u32 = 18;
    pub const ACCESS: u32 = 19;
    pub const GETCWD: u32 = 21;
    pub const OUT: u32 = 26;
    pub const ERRW: u32 = 27;
    pub const STDIN: u32 = 28;
    pub const NAMES: [&str; 29] = [
        "open", "read", "write", "close", "lseek", "stat", "mkdir", "unlink", "rename", "link", "symlink", "readlink",
        "realpath", "chmod", "truncate", "fsync", "utime", "readdir", "copy", "access", "chdir", "getcwd", "dup",
        "flock", "rmdir", "other", "stdout", "stderr", "stdin",
    ];
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, PartialOrd, Ord)]
pub enum FaultKind {
    Error = 1,
    Short = 2,
    KillBefore = 3,
    KillAfter = 4,
    KillMid = 5,
    Delay = 6,
    Clock = 7,
    Replace = 8,
    Remove = 9,
    Touch = 10,
    DiskFull = 11,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub kind: FaultKind,
    /// bit set of operations, 0 = all
    #[serde(default)]
    pub ops: u32,
    /// operation numbers
    pub from: u64,
    pub to: u64,
    #[serde(default)]
    pub arg: i64,
    #[serde(default = "always")]
    pub prob: u32,
    #[serde(default)]
    pub max: u32,
    #[serde(default)]
    pub path: Option<String>,
    #[serde(default)]
    pub data: Option<Blob>,
    #[serde(default)]
    pub proc: Option<u32>,
}
fn always() -> u32 {
    65536
}
impl Fault {
    pub fn at(kind: FaultKind, op: u64, arg: i64) -> Fault {
        Fault { kind, ops: 0, from: op, to: op, arg, prob: 65536, max: 1, path: None, data: None, proc: None }
    }
    pub fn any(kind: FaultKind, ops: u32, prob: u32, arg: i64) -> Fault {
        Fault { kind, ops, from: 1, to: u64::MAX, arg, prob, max: 0, path: None, data: None, proc: None }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Switch {
    pub decision: u64,
    pub task: u32,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct RunSpec {
    pub procs: Vec<ProcSpec>,
    #[serde(default)]
    pub cfg: Cfg,
    #[serde(default)]
    pub faults: Vec<Fault>,
    /// schedule: deviations from 'keep running', used when cfg.sched_mode is 0
    #[serde(default)]
    pub trace: Vec<Switch>,
    /// allocations at which a thread may be preempted
    #[serde(default)]
    pub alloc_points: Vec<u64>,
    /// branches, loads and stores of svdtools' own code at which a thread is preempted
    #[serde(default)]
    pub code_points: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub idx: u32,
    pub task: u8,
    pub proc: u8,
    pub op: u32,
    pub faulted: u8,
    pub ret: i64,
    pub err: i32,
    pub pos: u64,
    pub flags: u32,
    pub allocs: u64,
    pub path: String,
    pub path2: String,
}
#[derive(Clone, Debug)]
pub struct Fired {
    pub op: u64,
    pub fault: u32,
    pub arg: i64,
}
#[derive(Clone, Debug, Default)]
pub struct Counters {
    pub ioop: u64,
    pub decision: u64,
    pub allocs: u64,
    pub steps: u64,
    pub syncops: u64,
    pub creates: u64,
    pub threads_failed: u64,
    pub alloc_failed: u64,
    /// calls of pthread_getattr_np in which an allocation failed
    pub attr_failed: u64,
    pub spurious: u64,
    pub preempt: u64,
    pub simtime: u64,
    pub syshash: u64,
    pub nsw: u64,
    pub nfired: u64,
    pub logdrop: u64,
    pub ntask: u64,
    pub wallclock: u64,
    pub code: u64,
    pub shared: u64,
}
#[derive(Clone, Debug)]
pub struct ProcOut {
    pub status: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
impl ProcOut {
    pub fn exit(&self) -> Option<i32> {
        libc::WIFEXITED(self.status).then(|| libc::WEXITSTATUS(self.status))
    }
    pub fn signal(&self) -> Option<i32> {
        libc::WIFSIGNALED(self.status).then(|| libc::WTERMSIG(self.status))
    }
    pub fn ok(&self) -> bool {
        self.exit() == Some(0)
    }
    pub fn show(&self) -> String {
        match (self.exit(), self.signal()) {
            (Some(e), _) => format!("exit {e}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Entry {
    pub node: Node,
    pub ino: u64,
    pub dirty: u8,
    pub meta: bool,
    /// mode or time stamps were set explicitly
    pub attr: bool,
    pub created: bool,
    pub moved: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Ok,
    Deadlock,
    StepCap,
    Hang,
    Harness,
    AllocCap,
}
pub struct Outcome {
    pub verdict: Verdict,
    pub msg: String,
    pub procs: Vec<ProcOut>,
    pub c: Counters,
    pub switches: Vec<Switch>,
    pub fired: Vec<Fired>,
    pub log: Vec<Rec>,
    pub files: BTreeMap<String, Entry>,
}

struct W(Vec<u8>);
impl W {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    fn b(&mut self, v: &[u8]) {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v)
    }
    fn path(&mut self, p: &str) {
        let v = to_bytes(p);
        self.b(&v)
    }
}
/// Paths and arguments are kept as text, in which this character stands for the byte 0xFE
/// (which no UTF-8 text contains).
pub const ODD: char = '\u{f8fe}';
pub fn to_bytes(p: &str) -> Vec<u8> {
    if !p.contains(ODD) {
        return p.as_bytes().to_vec();
    }
    p.split(ODD).map(|x| x.as_bytes()).collect::<Vec<_>>().join(&0xfeu8)
}
pub fn from_bytes(b: &[u8]) -> String {
    if !b.contains(&0xfe) {
        return String::from_utf8_lossy(b).into_owned();
    }
    b.split(|c| *c == 0xfe).map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>().join(&ODD.to_string())
}
struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn b(&mut self) -> &'a [u8] {
        let n = self.u() as usize;
        self.take(n)
    }
    fn s(&mut self) -> String {
        String::from_utf8_lossy(self.b()).into_owned()
    }
}

/// Interpreters for the Python package: hash seed, and what else it takes from the environment
/// when it starts. The first is the plain one.
pub const PYTHONS: [(&str, &[(&str, &str)]); 4] = [
    ("0", &[("LANG", "C.UTF-8")]),
    ("1", &[("LANG", "C.UTF-8"), ("PYTHONOPTIMIZE", "")]),
    ("424242", &[("LC_ALL", "C"), ("PYTHONUTF8", "0"), ("PYTHONCOERCECLOCALE", "0")]),
    ("77", &[("LC_ALL", "POSIX"), ("TZ", "Asia/Tokyo")]),
];

pub struct Server {
    child: Child,
    tx: File,
    rx: File,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Server {
    pub fn new(bin: &str, sim: &str) -> std::io::Result<Server> {
        let mut cmd = Command::new(bin);
        cmd.args((0..120).map(|_| "--------------------------------")).env_clear().env("SVDSIM_SERVER", "1");
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        Server::start(cmd, sim)
    }
    /// The Python package, in an interpreter of the given kind.
    pub fn python(kind: usize, sim: &str) -> std::io::Result<Server> {
        let (seed, env) = PYTHONS[kind];
        let mut cmd = Command::new(std::env::var("VERIF_PYTHON").unwrap_or("/opt/vp/pyvenv/bin/python".into()));
        cmd.arg(format!("{}/simkernel/pyzygote.py", crate::runner::root()))
            .env_clear()
            .env("PYTHONHASHSEED", seed)
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("SVDSIM_REPO", std::env::var("VERIF_REPO").unwrap_or("/repo".into()))
            .envs(env.iter().copied());
        // not seekable, as the simulated ones
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        Server::start(cmd, sim)
    }
    fn start(mut cmd: Command, sim: &str) -> std::io::Result<Server> {
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        unsafe {
            if libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) != 0 || libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                return Err(std::io::Error::last_os_error());
            }
        }
        let (a0, b1) = (a[0], b[1]);
        cmd.env("LD_PRELOAD", sim)
            .current_dir("/");
        unsafe {
            cmd.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::personality(0x0040000);
                if libc::dup2(a0, 198) < 0 || libc::dup2(b1, 199) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = cmd.spawn()?;
        let (tx, rx) = unsafe {
            libc::close(a0);
            libc::close(b1);
            (File::from_raw_fd(a[1]), File::from_raw_fd(b[0]))
        };
        let _ = (tx.as_raw_fd(), rx.as_raw_fd());
        Ok(Server { child, tx, rx })
    }

    pub fn run(&mut self, image: &Image, spec: &RunSpec) -> std::io::Result<Outcome> {
        let mut w = W(Vec::with_capacity(1 << 16));
        for v in spec.cfg.words() {
            w.u(v)
        }
        w.u(image.0.len() as u64);
        for (p, n) in &image.0 {
            w.u(n.kind as u64);
            w.u(n.mode as u64);
            w.u(n.mtime as u64);
            w.path(p);
            if n.kind == Kind::Link {
                w.path(&String::from_utf8_lossy(n.data.bytes()));
            } else {
                w.b(n.data.bytes());
            }
        }
        w.u(spec.procs.len() as u64);
        for p in &spec.procs {
            w.u(p.argv.len() as u64);
            for a in &p.argv {
                w.path(a)
            }
            w.u(p.env.len() as u64);
            for a in &p.env {
                w.b(a.as_bytes())
            }
            w.path(&p.cwd);
        }
        let mut blobs: Vec<Vec<u8>> = Vec::new();
        w.u(spec.faults.len() as u64);
        for f in &spec.faults {
            w.u32(f.kind as u32);
            w.u32(f.ops);
            w.u(f.from);
            w.u(f.to);
            w.u(f.arg as u64);
            w.u(0);
            w.u32(f.prob);
            w.u32(f.max);
            let mut blob = |d: Option<&[u8]>| match d {
                None => 0,
                Some(d) => {
                    blobs.push(d.to_vec());
                    blobs.len() as u32
                }
            };
            let p = blob(f.path.as_ref().map(|s| to_bytes(s)).as_deref());
            let d = blob(f.data.as_ref().map(|d| d.bytes()));
            w.u32(p);
            w.u32(d);
            w.u32(f.proc.map_or(0, |p| p + 1));
            w.u32(0);
        }
        w.u(blobs.len() as u64);
        for b in &blobs {
            w.b(b)
        }
        w.u(spec.trace.len() as u64);
        for s in &spec.trace {
            w.u(s.decision);
            w.u32(s.task);
            w.u32(0);
        }
        w.u(spec.alloc_points.len() as u64);
        for a in &spec.alloc_points {
            w.u(*a)
        }
        w.u(spec.code_points.len() as u64);
        for a in &spec.code_points {
            w.u(*a)
        }
        self.tx.write_all(&(w.0.len() as u64).to_le_bytes())?;
        self.tx.write_all(&w.0)?;
        let mut n = [0u8; 8];
        self.rx.read_exact(&mut n)?;
        let mut buf = vec![0u8; u64::from_le_bytes(n) as usize];
        self.rx.read_exact(&mut buf)?;
        Ok(parse(&buf, image))
    }
}

fn parse(buf: &[u8], image: &Image) -> Outcome {
    let mut r = R(buf);
    let verdict = match r.u() {
        0 => Verdict::Ok,
        1 => Verdict::Deadlock,
        2 => Verdict::StepCap,
        3 => Verdict::Hang,
        5 => Verdict::AllocCap,
        _ => Verdict::Harness,
    };
    let msg = r.s();
    let np = r.u();
    let procs = (0..np).map(|_| ProcOut { status: r.u() as i32, out: r.b().to_vec(), err: r.b().to_vec() }).collect();
    let nc = r.u();
    let v: Vec<u64> = (0..nc).map(|_| r.u()).collect();
    let c = Counters {
        ioop: v[0],
        decision: v[1],
        allocs: v[2],
        steps: v[3],
        syncops: v[4],
        creates: v[5],
        threads_failed: v[6],
        alloc_failed: v[7],
        spurious: v[8],
        preempt: v[9],
        simtime: v[10],
        syshash: v[11],
        nsw: v[12],
        nfired: v[13],
        logdrop: v[14],
        ntask: v[15],
        wallclock: v[16],
        attr_failed: v[17],
        code: v[18],
        shared: v[19],
    };
    let n = r.u();
    let switches = (0..n)
        .map(|_| {
            let s = Switch { decision: r.u(), task: r.u32() };
            r.u32();
            s
        })
        .collect();
    let n = r.u();
    let fired = (0..n)
        .map(|_| {
            let op = r.u();
            let fault = r.u32();
            r.u32();
            Fired { op, fault, arg: r.u() as i64 }
        })
        .collect();
    let nlog = r.u();
    let mut l = R(r.b());
    let log = (0..nlog)
        .map(|_| {
            let idx = l.u32();
            let b = l.take(4);
            let ret = l.u() as i64;
            let err = l.u32() as i32;
            let plen = l.u32() as usize;
            let pos = l.u();
            let p2 = l.u32() as usize;
            let flags = l.u32();
            let _now = l.u();
            let allocs = l.u();
            let path = from_bytes(l.take(plen));
            let path2 = from_bytes(l.take(p2));
            Rec { idx, task: b[0], proc: b[1], op: b[2] as u32, faulted: b[3], ret, err, pos, flags, allocs, path, path2 }
        })
        .collect();
    let n = r.u();
    let mut files = BTreeMap::new();
    for _ in 0..n {
        let kind = match r.u() {
            1 => Kind::Dir,
            2 => Kind::File,
            3 => Kind::Link,
            4 => Kind::Null,
            _ => Kind::Full,
        };
        let mode = r.u() as u32;
        let mtime = r.u() as i64;
        let ino = r.u();
        let flags = r.u();
        let path = from_bytes(r.b());
        let _size = r.u();
        let data = r.b();
        let sent = flags >> 32 & 1 != 0;
        let data = if sent {
            if kind == Kind::Link {
                from_bytes(data).into_bytes().into()
            } else {
                data.to_vec().into()
            }
        } else if kind == Kind::File || kind == Kind::Link {
            image.0.get(&path).map(|n| n.data.clone()).unwrap_or_default()
        } else {
            Blob::default()
        };
        files.insert(
            path,
            Entry {
                node: Node { kind, mode, mtime, data },
                ino,
                dirty: flags as u8,
                meta: flags >> 8 & 3 != 0,
                attr: flags >> 9 & 1 != 0,
                created: flags >> 16 & 1 != 0,
                moved: flags >> 24 & 1 != 0,
            },
        );
    }
    Outcome { verdict, msg, procs, c, switches, fired, log, files }
}

impl Outcome {
    /// The tree as it is now, to start another run from.
    pub fn image(&self) -> Image {
        Image(self.files.iter().map(|(p, e)| (p.clone(), e.node.clone())).collect())
    }
}
