//! The package payload cache: every operation in a process of its own, which can crash, fail or be overtaken.
use crate::util::*;
use rez_next_package::package_cache::{CacheConfig, PackageCache, VariantHandle};
use serde_json::{Value, json};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn handle(v: &Value) -> VariantHandle {
    let mut h = VariantHandle::new(s(v, "name").into(), v["version"].as_str().map(String::from), v["index"].as_u64().map(|x| x as usize));
    for a in v["attr"].as_array().unwrap_or(&vec![]) { h.attributes.insert(a[0].as_str().unwrap().into(), a[1].as_str().unwrap().into()); }
    h
}
fn same(a: &VariantHandle, b: &VariantHandle) -> bool { a.name == b.name && a.version == b.version && a.index == b.index && a.attributes == b.attributes }
fn files(c: i64) -> Vec<(String, String)> {
    // "*" marks what can be executed, "/" an empty directory; lib/same is a link to lib/deep/data
    vec![("empty/".into(), String::new()), ("lib/same".into(), format!("{c:03}").repeat(4000)), ("package.py".into(), format!("# {c:03}")), (format!("bin/tool{c:03}*"), format!("{c:03}").repeat(50)), ("lib/deep/data".into(), format!("{c:03}").repeat(4000)), ("void".into(), String::new())]
}
const SIZE: u64 = 5 + 150 + 12000;
fn tree(d: &Path, rel: &str, out: &mut Vec<(String, String)>) {
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
        let x = fs::metadata(e.path()).is_ok_and(|m| std::os::unix::fs::PermissionsExt::mode(&m.permissions()) & 0o111 != 0);
        if e.path().is_dir() { let n = out.len(); tree(&e.path(), &r, out); if out.len() == n { out.push((format!("{r}/"), String::new())) } } else { let r = if x { format!("{r}*") } else { r }; out.push((r, String::from_utf8_lossy(&fs::read(e.path()).unwrap_or_default()).into_owned())) }
    }
}
/// 0: nothing there; 99: something else than the whole contents of one payload
fn content(p: &Path) -> i64 {
    if !p.is_dir() { return 0; }
    let mut t = vec![];
    tree(p, "", &mut t);
    t.sort();
    (10..60).find(|c| { let mut f = files(*c); f.sort(); f == t }).unwrap_or(99)
}
fn cache(root: &Path, op: &Value) -> Option<PackageCache> {
    let max = op["max"].as_u64().unwrap_or(9);
    PackageCache::with_config(root, CacheConfig { max_size_bytes: if max >= 9 { None } else { Some(max * SIZE) }, min_free_space_bytes: 0, max_age_secs: if op["limit"] == json!(true) { Some(3600) } else { None }, cache_local: true }).ok()
}
pub fn child(op: &Value) -> Value {
    let root = PathBuf::from(s(op, "root"));
    let Some(c) = cache(&root, op) else { return json!({"res": "err", "c": 0}) };
    let h = handle(&op["handle"]);
    let (st, p) = match s(op, "op") {
        "add" => match c.add_variant(&h, Path::new(s(op, "src")), false) { Ok((st, p)) => (format!("{st:?}"), Some(p)), Err(_) => ("err".into(), None) },
        "get" => { let (st, p) = c.get_cached_root(&h); (format!("{st:?}"), p) }
        "remove" => (format!("{:?}", c.remove_variant(&h).0), None),
        "clean" => { c.clean(None); ("done".to_string(), None) }
        x => { eprintln!("VH-TOOL-ERROR op {x}"); std::process::exit(3) }
    };
    let k = if s(op, "op") != "remove" && (st == "Found" || st == "Created") { p.map(|p| content(&p)).unwrap_or(98) } else { 0 };
    json!({"res": st, "c": k})
}
fn now() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() }
fn walk(root: &Path, out: &mut Vec<PathBuf>) {
    for e in fs::read_dir(root).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() { if !p.ends_with(".sys") { walk(&p, out) } } else { out.push(p) }
    }
}
/// much later: nothing was copied or used in the meantime
fn later(root: &Path) {
    let mut l = vec![];
    walk(root, &mut l);
    for p in l {
        let n = p.file_name().unwrap().to_string_lossy().into_owned();
        if n.starts_with(".copying-") { if let Ok(f) = fs::File::options().write(true).open(&p) { f.set_modified(SystemTime::now() - Duration::from_secs(1000)).expect("VH-TOOL-ERROR mtime"); } }
        else if n.ends_with(".json") && !p.with_file_name(format!(".copying-{}", n.trim_end_matches(".json"))).exists() && let Ok(t) = fs::read_to_string(&p) && let Ok(mut v) = serde_json::from_str::<Value>(&t) && v["last_accessed"].is_u64() {
            v["last_accessed"] = json!(now() - 100000);
            let tmp = root.join(".sys").join(format!("later{}", std::process::id()));
            fs::write(&tmp, v.to_string()).expect("VH-TOOL-ERROR later");
            fs::rename(&tmp, &p).expect("VH-TOOL-ERROR later");
        }
    }
}
fn probe(root: &Path, hs: &[VariantHandle]) -> Value {
    let c = cache(root, &json!({})).expect("VH-TOOL-ERROR cache");
    let mut out = vec![];
    for (h, p, st) in c.list_cached() {
        let i = hs.iter().position(|x| same(x, &h)).map(|i| i as i64 + 1).unwrap_or(0);
        let aged = fs::read_to_string(p.with_extension("json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).and_then(|v| v["last_accessed"].as_u64()).is_some_and(|t| t + 50000 < now());
        out.push(json!({"h": i, "st": format!("{st:?}"), "c": content(&p), "aged": aged}));
    }
    json!(out)
}
pub fn run(case: &Value) -> Value {
    let base = fresh_dir();
    let root = base.join("cache");
    fs::create_dir_all(&root).expect("VH-TOOL-ERROR mk");
    let specs = case["init"]["handles"].as_array().unwrap().clone();
    let hs: Vec<VariantHandle> = specs.iter().map(handle).collect();
    let max = case["init"]["max"].as_i64().unwrap();
    let src = |h: i64, k: i64| {
        let d = base.join(format!("src{h}{k}"));
        if !d.exists() { for (p, t) in files(h * 10 + k) {
            let q = d.join(p.trim_end_matches(['*', '/']));
            fs::create_dir_all(q.parent().unwrap()).expect("VH-TOOL-ERROR mk");
            if p.ends_with('/') { fs::create_dir_all(q).expect("VH-TOOL-ERROR mk"); continue; }
            if p == "lib/same" { std::os::unix::fs::symlink("deep/data", q).expect("VH-TOOL-ERROR link"); continue; }
            fs::write(&q, t).expect("VH-TOOL-ERROR write");
            if p.ends_with('*') { fs::set_permissions(&q, std::os::unix::fs::PermissionsExt::from_mode(0o755)).expect("VH-TOOL-ERROR chmod"); }
        } }
        d
    };
    let prep = |st: &Value| { let h = st["h"].as_i64().unwrap(); json!({"op": st["op"], "root": root, "handle": specs[h as usize - 1], "src": if s(st, "op") == "add" { src(h, st["k"].as_i64().unwrap()) } else { PathBuf::new() }, "limit": st["limit"], "max": max}) };
    let one = |op: &Value, mode: &str, at: i64, sticky: bool| -> Value {
        let c = crate::util::child("pcache", op, mode, at, sticky, &root, None);
        let (r, k) = if c.end == "crash" { ("crash".to_string(), 0) } else if c.res.is_null() { (format!("bad {}", c.end), 0) } else { (s(&c.res, "res").to_string(), c.res["c"].as_i64().unwrap()) };
        json!({"res": r, "c": k, "hit": c.hit, "calls": c.calls})
    };
    let mut out = vec![];
    cache(&root, &json!({})).expect("VH-TOOL-ERROR cache");
    for st in case["steps"].as_array().unwrap() {
        let mut o = st.clone();
        match s(st, "how") {
            "litter" => {
                // remains of other programs where the entries of the first variant go
                let h = &hs[0];
                let d = root.join(h.name.to_lowercase()).join(h.version.clone().unwrap_or("_NO_VERSION".into()).to_lowercase()).join(&h.sha1_hash()[..4]);
                fs::create_dir_all(&d).expect("VH-TOOL-ERROR mk");
                let n = s(st, "name");
                if n.ends_with('/') { fs::create_dir_all(d.join(n).join("lib")).expect("VH-TOOL-ERROR mk"); fs::write(d.join(n).join("old"), "old").expect("VH-TOOL-ERROR write"); } else { fs::write(d.join(n), s(st, "text")).expect("VH-TOOL-ERROR write"); }
            }
            "later" => later(&root),
            "run" => { let r = one(&prep(st), "off", 0, false); for k in ["res", "c"] { o[k] = r[k].clone(); } }
            "cut" => { let r = one(&prep(st), s(st, "mode"), st["at"].as_i64().unwrap(), st["sticky"] == json!(1)); for k in ["res", "c", "hit"] { o[k] = r[k].clone(); } }
            "with" => {
                let op = prep(st);
                let inp = base.join("in.json");
                let outp = base.join("out.json");
                fs::write(&inp, op.to_string()).expect("VH-TOOL-ERROR write");
                let log = base.join("stop.log");
                let ch = Command::new(std::env::current_exe().unwrap()).arg("--child").arg("pcache").stdin(fs::File::open(&inp).unwrap()).stdout(fs::File::create(&outp).unwrap()).stderr(Stdio::null())
                    .env("LD_PRELOAD", std::env::var("VH_SHIM").unwrap()).env("VSHIM_MODE", "stop").env("VSHIM_AT", st["at"].to_string()).env("VSHIM_ROOT", &root).env("VSHIM_LOG", &log).spawn().expect("VH-TOOL-ERROR spawn");
                let pid = ch.id() as i32;
                let mut ws = 0;
                if unsafe { libc::waitpid(pid, &mut ws, libc::WUNTRACED) } != pid { panic!("VH-TOOL-ERROR waitpid"); }
                let stopped = libc::WIFSTOPPED(ws);
                let others: Vec<Value> = st["others"].as_array().unwrap().iter().map(|x| if s(x, "op") == "later" { json!({"op": "later"}) } else { prep(x) }).collect();
                let blocked = std::cell::Cell::new(false);
                let rb: Vec<Value> = std::thread::scope(|sc| {
                    let root2 = root.clone();
                    let t = sc.spawn(move || others.iter().map(|x| if s(x, "op") == "later" { later(&root2); json!({"res": "done", "c": 0}) } else {
                        let c = crate::util::child("pcache", x, "off", 0, false, &root2, None);
                        if c.res.is_null() { json!({"res": format!("bad {}", c.end), "c": 0}) } else { json!({"res": c.res["res"], "c": c.res["c"]}) }
                    }).collect::<Vec<_>>());
                    if stopped {
                        let t0 = std::time::Instant::now();
                        while !t.is_finished() && t0.elapsed() < Duration::from_millis(250) { std::thread::sleep(Duration::from_millis(1)); }
                        blocked.set(!t.is_finished());
                        unsafe { libc::kill(pid, libc::SIGCONT); }
                        if unsafe { libc::waitpid(pid, &mut ws, 0) } != pid { panic!("VH-TOOL-ERROR waitpid"); }
                    }
                    t.join().unwrap()
                });
                let v: Value = serde_json::from_slice(&fs::read(&outp).unwrap()).unwrap_or(Value::Null);
                let ok = libc::WIFEXITED(ws) && libc::WEXITSTATUS(ws) == 0 && !v.is_null();
                o["res"] = if ok { v["res"].clone() } else { json!(format!("bad {ws}")) };
                o["c"] = if ok { v["c"].clone() } else { json!(0) };
                o["rb"] = json!(rb);
                o["stopped"] = json!(stopped);
                o["blocked"] = json!(blocked.get());
            }
            x => panic!("VH-TOOL-ERROR {x}"),
        }
        o["probe"] = probe(&root, &hs);
        out.push(o);
    }
    let _ = fs::remove_dir_all(&base);
    let mut r = with_steps(case, out);
    r["init"] = json!({"n": specs.len(), "max": max});
    r
}
