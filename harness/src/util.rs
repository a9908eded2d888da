#![allow(dead_code)]
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;

pub fn text(v: &Value) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(63) as u32)).collect())
        .unwrap_or_default()
}
pub fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
/// runs code under test; a panic is an observation
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "panic".into())
    })
}
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("VH_SCRATCH").expect("VH-TOOL-ERROR no scratch"))
}
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
pub fn fresh_dir() -> PathBuf {
    let p = scratch().join(format!("d{}", N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).expect("VH-TOOL-ERROR scratch");
    p
}
pub fn with_steps(case: &Value, steps: Vec<Value>) -> Value {
    let mut r = case.clone();
    r["steps"] = Value::Array(steps);
    r
}

/// Runs one operation in a child process of this program under the shim.
/// Returns (how it ended: "ok" | "crash" | "exit N", its result, whether the injected fault was reached, escapes)
pub struct ChildOut { pub end: String, pub res: Value, pub hit: bool, pub calls: usize, pub escapes: Vec<String> }
pub fn child(suite: &str, op: &Value, mode: &str, at: i64, sticky: bool, root: &std::path::Path, confine: Option<&std::path::Path>) -> ChildOut {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let log = scratch().join(format!("shimlog{}", N.fetch_add(1, Ordering::SeqCst)));
    // "cli": op is {args, cwd?, env?} for the command line program; anything else is an operation of this program
    let cli = suite == "cli";
    let mut c = if cli { Command::new(std::env::var("VH_CLI").expect("VH-TOOL-ERROR cli")) } else { Command::new(std::env::current_exe().expect("VH-TOOL-ERROR exe")) };
    if cli {
        for a in op["args"].as_array().expect("VH-TOOL-ERROR args") { c.arg(a.as_str().expect("VH-TOOL-ERROR arg")); }
        if let Some(d) = op["cwd"].as_str() { c.current_dir(d); }
        if let Some(e) = op["env"].as_object() { for (k, v) in e { c.env(k, v.as_str().unwrap_or("")); } }
    } else {
        c.arg("--child").arg(suite);
        if let Some(d) = op["_cwd"].as_str() { c.current_dir(d); }
        if let Some(e) = op["_env"].as_object() { for (k, v) in e { c.env(k, v.as_str().unwrap_or("")); } }
        // a variable whose name or value is not Unicode
        use std::os::unix::ffi::OsStrExt;
        for j in op["_junk"].as_array().unwrap_or(&vec![]) { c.env(std::ffi::OsStr::from_bytes(j[0].as_str().unwrap_or("").replace('?', "\u{0}").as_bytes().iter().map(|b| if *b == 0 { 255 } else { *b }).collect::<Vec<u8>>().as_slice()), std::ffi::OsStr::from_bytes(b"\xfe\xff")); }
    }
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if cli { Stdio::piped() } else { Stdio::null() })
        .env("LD_PRELOAD", std::env::var("VH_SHIM").expect("VH-TOOL-ERROR shim"))
        .env("VSHIM_MODE", mode).env("VSHIM_AT", at.to_string()).env("VSHIM_STICKY", if sticky { "1" } else { "0" })
        .env("VSHIM_ROOT", root).env("VSHIM_LOG", &log);
    if let Some(p) = confine { c.env("VSHIM_CONFINE", p); }
    let mut ch = c.spawn().expect("VH-TOOL-ERROR spawn");
    let text = if cli { s(op, "stdin").to_string() } else { op.to_string() };
    let _ = ch.stdin.take().unwrap().write_all(text.as_bytes());
    let o = ch.wait_with_output().expect("VH-TOOL-ERROR wait");
    let l = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let hit = l.lines().any(|x| x.starts_with("CRASH ") || x.starts_with("FAIL "));
    let end = match o.status.code() { Some(0) => "ok".to_string(), Some(137) if mode == "crash" && hit => "crash".into(), Some(3) if !cli => { eprintln!("VH-TOOL-ERROR child"); std::process::exit(3) } x => format!("exit {x:?}") };
    let res = if cli { json!({"code": o.status.code().unwrap_or(-1), "out": String::from_utf8_lossy(&o.stdout), "err": String::from_utf8_lossy(&o.stderr)}) } else { serde_json::from_slice(&o.stdout).unwrap_or(Value::Null) };
    ChildOut { end, res, hit, calls: l.lines().filter(|x| x.starts_with("CALL ")).count(), escapes: l.lines().filter(|x| x.starts_with("ESCAPE ")).map(String::from).collect() }
}
