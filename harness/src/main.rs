//! Executes recorded cases against the real rez-next code and writes what it observed.
//! `vh <suite> <in.ndjson> <out.ndjson>`; the judging is done by TLC against /verif/spec.
mod catalog;
mod config;
mod doc;
mod env;
mod fsrepo;
mod util;
mod pcache;
mod pyread;
mod range;
mod req;
mod solver;
mod store;
mod suites;
mod version;

use serde_json::Value;
use std::io::{BufRead, Write};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 3 && a[1] == "--child" {
        let mut t = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("VH-TOOL-ERROR stdin");
        let op: Value = serde_json::from_str(&t).expect("VH-TOOL-ERROR json");
        let r = match a[2].as_str() {
            "fsrepo" => fsrepo::child(&op),
            "store" => store::child(&op),
            "config" => config::child(&op),
            "pcache" => pcache::child(&op),
            "suites" => suites::child(&op),
            _ => { eprintln!("VH-TOOL-ERROR child suite"); std::process::exit(3) }
        };
        println!("{r}");
        return;
    }
    if a.len() < 4 {
        eprintln!("VH-TOOL-ERROR usage");
        std::process::exit(3);
    }
    std::panic::set_hook(Box::new(|i| eprintln!("panic: {i}")));
    let run: fn(&Value) -> Value = match a[1].as_str() {
        "catalog" => catalog::run,
        "config" => config::run,
        "doc" => doc::run,
        "env" => env::run,
        "script" => env::script,
        "pcache" => pcache::run,
        "suites" => suites::run,
        "py" => pyread::run,
        "version" => version::run,
        "req" => req::run,
        "fsrepo" => fsrepo::run,
        "solver" => solver::run,
        "store" => store::run,
        "range" => range::run,
        s => {
            eprintln!("VH-TOOL-ERROR unknown suite {s}");
            std::process::exit(3);
        }
    };
    let inp = std::io::BufReader::new(std::fs::File::open(&a[2]).expect("VH-TOOL-ERROR input"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[3]).expect("VH-TOOL-ERROR output"));
    for line in inp.lines() {
        let line = line.expect("VH-TOOL-ERROR read");
        let case: Value = serde_json::from_str(&line).expect("VH-TOOL-ERROR json");
        let rec = run(&case);
        serde_json::to_writer(&mut out, &rec).expect("VH-TOOL-ERROR write");
        out.write_all(b"\n").expect("VH-TOOL-ERROR write");
        out.flush().expect("VH-TOOL-ERROR flush");
    }
}
