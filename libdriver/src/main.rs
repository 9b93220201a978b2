//! Calls the public functions of svdtools as a plan says: several threads, each making its
//! calls one after another. Usage: libdriver PLAN RESULTS.
//! PLAN is JSON: a list of threads, each a list of calls, each a list of strings.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use svdtools::convert::convert_cli;

fn opt(p: &Path) -> Option<&Path> {
    (!p.as_os_str().is_empty()).then_some(p)
}
type R = Result<String, String>;
fn e<T>(r: Result<T, impl std::fmt::Display + std::fmt::Debug>) -> Result<T, String> {
    r.map_err(|e| format!("{e:#}"))
}

fn call(a: &[String]) -> R {
    // a character that stands for a byte which is not UTF-8 (see driver/src/sim.rs)
    let raw: Vec<PathBuf> = a
        .iter()
        .map(|s| OsString::from_vec(s.split('\u{f8fe}').map(|x| x.as_bytes()).collect::<Vec<_>>().join(&0xfeu8)).into())
        .collect();
    let p = |k: usize| raw.get(k).map_or(Path::new(""), |p| p.as_path());
    let s = |k: usize| a.get(k).map_or("", |s| s.as_str());
    let paths = |k: usize| raw[k..].to_vec();
    let conf = |k: usize| {
        let mut c = svdtools::patch::Config::default();
        if s(k).contains("strict") {
            c.post_validate = svd_rs::ValidateLevel::Strict;
        }
        c.show_patch_on_error = s(k).contains("show");
        if s(k).contains("field") {
            c.enum_derive = svdtools::patch::EnumAutoDerive::Field;
        }
        if s(k).contains("none") {
            c.enum_derive = svdtools::patch::EnumAutoDerive::None;
        }
        c
    };
    let parser = |k: usize| convert_cli::ParserConfig {
        expand: s(k).contains("expand"),
        expand_properties: s(k).contains("properties"),
        ignore_enums: s(k).contains("ignore"),
    };
    match s(0) {
        // root, out, format config, options
        "patch" => e(svdtools::patch::patch_cli::patch(p(1), opt(p(2)), opt(p(3)), &conf(4))).map(|_| String::new()),
        "process_file" => e(svdtools::patch::process_file(p(1), opt(p(2)), opt(p(3)), &conf(4))).map(|_| String::new()),
        // root, svd
        "process_reader" => {
            let doc = e(svdtools::patch::load_patch(p(1)))?;
            let f = e(std::fs::File::open(p(2)))?;
            let mut out = String::new();
            let mut r = e(svdtools::patch::process_reader(f, &doc, &svdtools::patch::EncoderConfig::default(), &conf(3)))?;
            e(std::io::Read::read_to_string(&mut r, &mut out))?;
            Ok(out)
        }
        "load_patch" => e(svdtools::patch::load_patch(p(1))).map(|y| format!("{y:?}")),
        "expand_patch" => e(svdtools::patch::patch_cli::expand_patch(p(1))),
        "makedeps" => e(svdtools::makedeps::makedeps_cli::makedeps(p(1), p(2))).map(|_| String::new()),
        // in, out, in format, out format, options, format config
        "convert" => {
            let i = if s(3).is_empty() { None } else { Some(e(convert_cli::InputFormat::from_str(s(3)))?) };
            let o = if s(4).is_empty() { None } else { Some(e(convert_cli::OutputFormat::from_str(s(4)))?) };
            e(convert_cli::convert(p(1), p(2), i, o, parser(5), opt(p(6)))).map(|_| String::new())
        }
        "open_svd" => {
            let d = e(convert_cli::open_svd(p(1), None, parser(2)))?;
            e(serde_json::to_string(&d))
        }
        "info" => {
            let d = e(convert_cli::open_svd(p(1), None, parser(2)))?;
            e(e(svdtools::info::Request::from_str("device-name"))?.process(&d))
        }
        "mmap" => e(svdtools::mmap::mmap_cli::parse_device(p(1))).map(|_| String::new()),
        "interrupts" => e(svdtools::interrupts::interrupts_cli::parse_device(p(1), s(2) == "gaps")).map(|_| String::new()),
        "html" => e(svdtools::html::html_cli::svd2html(p(1), &paths(2))).map(|_| String::new()),
        "htmlcompare" => e(svdtools::html::htmlcompare_cli::htmlcompare(p(1), &paths(2))).map(|_| String::new()),
        // between calls a thread may change its own files
        "put" => e(std::fs::write(p(1), s(2))).map(|_| String::new()),
        x => Err(format!("no such call: {x}")),
    }
}

fn guarded(a: &[String]) -> [String; 2] {
    match catch_unwind(AssertUnwindSafe(|| call(a))) {
        Ok(Ok(s)) => ["ok".into(), s],
        Ok(Err(s)) => ["error".into(), s],
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            ["panic".into(), m.unwrap_or_default()]
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let plan: Vec<Vec<Vec<String>>> = serde_json::from_slice(&std::fs::read(&a[1]).expect("plan")).expect("plan");
    let run = |calls: &[Vec<String>]| calls.iter().map(|c| guarded(c)).collect::<Vec<_>>();
    let results: Vec<Vec<[String; 2]>> = if plan.len() == 1 {
        vec![run(&plan[0])]
    } else {
        std::thread::scope(|s| {
            let h: Vec<_> = plan.iter().map(|t| s.spawn(move || run(t))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    std::fs::write(&a[2], serde_json::to_vec(&results).unwrap()).expect("results");
    // no destructors of the library run after this
}
