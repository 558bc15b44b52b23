#![allow(mismatched_lifetime_syntaxes)]
//! Conformance harness: drives the real crates and records traces that TLC
//! checks against the specifications in /verif/spec.
pub mod bag;
pub mod canon;
pub mod debug;
pub mod ext;
pub mod nest;
pub mod json;
pub mod ops;
pub mod probe;
pub mod quarantine;
pub mod record;
pub mod script;
pub mod side;
pub mod ways;
pub mod wide;

#[global_allocator]
static ALLOC: quarantine::Quarantine = quarantine::Quarantine;

use json::J;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Runs a closure of the code under test; a panic is data.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if m.starts_with("case format:") {
            eprintln!("TOOL ERROR {}", m);
            std::process::exit(7);
        }
        m
    })
}

/// `prog CASES OUT [SKIP]`: one JSON case per line in, one trace per line out.
/// A line "#start <n>" on stderr-like side file lets the caller find the case
/// that killed the process.
pub fn main_loop(run: impl Fn(&J) -> J) {
    silence_panics();
    let args: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("cases"));
    let mut out = std::io::BufWriter::new(
        std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&args[2])
            .expect("out"),
    );
    let skip: usize = args.get(3).map_or(0, |x| x.parse().unwrap());
    let flush_each = args.get(4).is_some();
    side::alone();
    for line in inp.lines().skip(skip) {
        let line = line.expect("read");
        let case = J::parse(&line);
        canon::TURN.with(|t| t.set(case.opt("id").map_or(0, |x| x.int())));
        side::choose(case.opt("id").map_or(0, |x| x.int()) % 16 == 3);
        let res = match guarded(|| run(&case)) {
            Ok(r) => r,
            Err(m) => json::obj(vec![
                ("id", case.get("id").clone()),
                ("crash", J::Str(m)),
            ]),
        };
        let mut t = res.text();
        t.push('\n');
        out.write_all(t.as_bytes()).expect("write");
        if flush_each {
            out.flush().expect("flush");
        }
    }
    out.flush().expect("flush");
}
