mod case;
mod genpatch;
mod gensvd;
mod minimise;
mod props;
mod rng;
mod runner;
mod shop;
mod sim;
mod vignette;
mod world;

/// How generated cases end when nothing disturbs them.
fn survey(n: u64) -> i32 {
    let mut ex = runner::exec();
    let mut t = std::collections::BTreeMap::<String, (u64, String)>::new();
    for i in 0..n {
        let mut r = rng::Rng::new(rng::mix(77, i));
        let c = case::generate(&mut r, &mut ex, case::ALL, &case::GenOpt::default());
        let o = ex.reference("svdtools", &c.image, &c.proc);
        let e = String::from_utf8_lossy(&o.procs[0].err).into_owned();
        let cause: Vec<&str> = e.lines().filter(|l| l.starts_with("    ") && l.trim().starts_with(|c: char| c.is_ascii_digit()) || l.contains("panicked")).collect();
        let key = format!("{:?} {} {}", c.cmd, o.procs[0].show(), cause.last().unwrap_or(&"").chars().take(70).collect::<String>());
        let v = t.entry(key).or_default();
        v.0 += 1;
        v.1 = e.lines().take(12).collect::<Vec<_>>().join(" | ");
    }
    for (k, (n, e)) in t {
        println!("{n:5} {k}{}", if k.contains("exit 0") { String::new() } else { format!("\n        {}", e.chars().take(400).collect::<String>()) });
    }
    0
}

/// The same for the Python package.
fn pysurvey(n: u64) -> i32 {
    let mut ex = runner::exec();
    let mut t = std::collections::BTreeMap::<String, (u64, String)>::new();
    let t0 = std::time::Instant::now();
    for i in 0..n {
        let mut r = rng::Rng::new(rng::mix(77, i));
        vignette::PYTHON.set(true);
        let mut c = case::generate(&mut r, &mut ex, &[case::Cmd::Patch, case::Cmd::Patch, case::Cmd::Makedeps, case::Cmd::Mmap, case::Cmd::Interrupts], &case::GenOpt::default());
        let o = ex.reference("svdtools", &c.image, &c.proc);
        if c.cmd == case::Cmd::Patch {
            c.proc.argv.truncate(3);
        }
        c.proc.argv.retain(|a| a != "--no-gaps" || i % 2 == 0);
        let t1 = std::time::Instant::now();
        let q = ex.reference("python0", &c.image, &c.proc);
        let e = String::from_utf8_lossy(&q.procs[0].err).into_owned();
        let key = format!("{:?} rust {} python {} {:?} {}", c.cmd, o.procs[0].show(), q.procs[0].show(), q.verdict, e.lines().last().unwrap_or("").chars().take(80).collect::<String>());
        let v = t.entry(key).or_default();
        v.0 += 1;
        v.1 = format!("{:?} {:?}", t1.elapsed(), c.proc.argv);
    }
    for (k, (n, e)) in t {
        println!("{n:5} {k}  {}", e.chars().take(120).collect::<String>());
    }
    println!("{:?}", t0.elapsed());
    0
}

/// Writes generated cases below a real directory, with a script that runs each natively
/// (tools/coverage.sh measures which lines of svdtools they reach).
fn export(n: u64, dir: &str) -> std::io::Result<()> {
    use std::os::unix::fs::symlink;
    let mut ex = runner::exec();
    for i in 0..n {
        let mut r = rng::Rng::new(rng::mix(77, i));
        let c = case::generate(&mut r, &mut ex, case::ALL, &case::GenOpt::default());
        let d = format!("{dir}/{i}");
        std::fs::create_dir_all(&d)?;
        for (p, node) in &c.image.0 {
            let q = format!("{d}{p}");
            match node.kind {
                sim::Kind::Dir => std::fs::create_dir_all(&q)?,
                sim::Kind::Link => symlink(String::from_utf8_lossy(node.data.bytes()).as_ref(), &q)?,
                _ => std::fs::write(&q, node.data.bytes())?,
            }
        }
        let q = |s: &String| format!("'{}'", s.replace('\'', "'\\''"));
        let mut s = format!("cd {d}{} || exit 3\n", c.proc.cwd);
        for e in &c.proc.env {
            s += &format!("export {}\n", q(e));
        }
        s += "exec \"$BIN\"";
        for a in &c.proc.argv[1..] {
            s += &format!(" {}", q(&if a.starts_with('/') { format!("{d}{a}") } else { a.clone() }));
        }
        std::fs::write(format!("{d}/cmd.sh"), s + " >/dev/null 2>&1\n")?;
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => {
            let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or("quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            runner::check(&a[2], &tier, seed, std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()))
        }
        Some("survey") => survey(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(500)),
        Some("pysurvey") => pysurvey(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(100)),
        Some("export") if a.len() == 4 => export(a[2].parse().unwrap(), &a[3]).map_or(3, |_| 0),
        Some("replay") if a.len() == 3 => runner::replay(&a[2]),
        _ => {
            println!("usage: driver check ID [quick|thorough] | driver replay FILE");
            3
        }
    };
    std::process::exit(code)
}
