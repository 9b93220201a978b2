//! Same inputs, same bytes.
use super::*;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn count(&self) -> (u64, u64) {
        (4200, 58800)
    }
    fn rule(&self) -> &'static str {
        "all commands on generated trees, each run in several environments that differ in hash seeds, memory layout, clock, clock rate, process ids, CPU count and schedule, inode numbers, directory order, file time stamps and modes, and unrelated environment variables; compared with the plain environment. Non-trivial: every run (its environment differs)."
    }
    fn probes(&self) -> &'static [&'static str] {
        &["other environment", "other time stamps", "several threads", "failing command"]
    }
    fn explore(&self, _i: u64, r: &mut Rng, ex: &mut Exec, sink: Sink) {
        // the order of rules shows in what patch writes
        let cmds = if r.chance(1, 4) { &[Cmd::Patch][..] } else { ALL };
        let mut c = generate(r, ex, cmds, &GenOpt::default());
        if let (Some(d), Cmd::Html) = (&c.dir, c.cmd) {
            let d = d.clone();
            c.image = fresh_html(&c.image, &d, &c.inputs);
        }
        if r.chance(1, 8) && !c.inputs.is_empty() && c.cmd != Cmd::Html {
            let p = r.pick(&c.inputs).clone();
            let mut d = c.image.get(&p).unwrap_or(b"").to_vec();
            if r.chance(1, 2) {
                d.truncate(r.below(d.len() as u64 + 1) as usize);
            } else {
                d.extend_from_slice(b"\nNOPE:\n  _strip: [1]\n  A: {B: [0, x]}\n");
            }
            c.image.file(&p, d);
        }
        for _ in 0..6 {
            let mut d = c.clone();
            let mut run = plain(&c.proc);
            run.cfg.hash_seed = r.u64();
            run.cfg.wall0 = *r.pick(&[0, 1, 1_000_000_000, 946_684_800_000_000_000, WALL0 + 1, 4_102_444_800_000_000_000, 8_000_000_000_000_000_000]) + r.below(1_000_000_000);
            run.cfg.mono0 = r.below(1 << 60);
            run.cfg.pid_base = r.range(2, 4_000_000);
            run.cfg.ino_seed = r.u64();
            run.cfg.heap_seed = r.u64();
            run.cfg.readdir_mode = r.below(3);
            run.cfg.tick = *r.pick(&[0, 1, 1000, 50_000_000]);
            run.cfg.jitter = *r.pick(&[0, 0, 1_000_000_000]);
            run.cfg.time_seed = r.u64();
            run.cfg.gran = *r.pick(&[1, 1_000_000_000]);
            if r.chance(1, 2) {
                run.cfg.ncpu = r.range(1, 12);
                schedule(r, &mut run.cfg);
            }
            let mut env: Vec<&str> = vec![
                "COLUMNS=40", "TERM=xterm-256color", "LANG=ja_JP.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Tokyo", "PWD=/nowhere", "OLDPWD=/w",
                "TMPDIR=/w/none", "HOME=/root", "USER=x", "RAYON_NUM_THREADS=3", "SOURCE_DATE_EPOCH=0", "RUST_BACKTRACE=full", "NO_COLOR=1",
                "CLICOLOR_FORCE=1", "XDG_CONFIG_HOME=/w", "PATH=/none", "HOSTNAME=h", "SVDTOOLS_OPTS=--help", "RUST_LOG_STYLE=always", "SHELL=/bin/x", "EDITOR=vi",
            ];
            r.shuffle(&mut env);
            let n = r.below(8) as usize;
            for e in &env[..n] {
                run.procs[0].env.push(e.to_string());
            }
            if r.chance(1, 2) {
                for n in d.image.0.values_mut() {
                    n.mtime = match r.below(4) {
                        0 => 0,
                        1 => WALL0 as i64 + r.below(1 << 55) as i64,
                        _ => T0 - r.below(1 << 58) as i64,
                    };
                    if n.kind == Kind::File {
                        n.mode = *r.pick(&[0o644, 0o600, 0o444, 0o755]);
                    }
                }
                if let Some(n) = d.out.as_ref().and_then(|o| d.image.0.get_mut(o)) {
                    n.mode = 0o644;
                }
            }
            let mut s = scenario("C09", "environment", &d, run);
            s.facts.insert("times".into(), vec![(d.image != c.image).to_string()]);
            if !sink(s, ex) {
                return;
            }
        }
    }
    fn check(&self, s: &Scenario, ex: &mut Exec) -> Check {
        let run = s.run();
        ex.nontrivial = true;
        let o = ex.go(&s.bin, &s.image, run);
        if o.verdict != Verdict::Ok {
            if ex.reference(&s.bin, &s.image, &run.procs[0]).verdict == Verdict::Ok {
                return stuck(run, &o);
            }
            return Ok(());
        }
        ex.stats.probe("other environment");
        if s.fact("times").first().map_or(false, |t| t == "true") {
            ex.stats.probe("other time stamps");
        }
        if o.c.preempt > 0 {
            ex.stats.probe("several threads");
        }
        let mut plainly = run.procs[0].clone();
        plainly.env.clear();
        let mut img = s.image.clone();
        for n in img.0.values_mut() {
            n.mtime = T0;
        }
        let r = ex.reference(&s.bin, &img, &plainly);
        if !r.procs[0].ok() {
            ex.stats.probe("failing command");
        }
        let (mut got, mut want) = (delivered(s, &o), delivered(s, &r));
        if is_html(s) && !r.procs[0].ok() && !o.procs[0].ok() {
            (got.files, want.files) = Default::default();
            (got.stdout, want.stdout) = Default::default();
        }
        same(&got, &want).map_err(|v| Violation {
            class: v.class,
            detail: format!("{}: {} (environment: {:?}, hash seed {}, {} CPUs)", run.procs[0].argv.join(" "), v.detail, run.procs[0].env, run.cfg.hash_seed, run.cfg.ncpu),
        })
    }
}
