//! Filesystem repository life cycle: ignore / unignore / remove, with crashes and I/O failures.
use crate::util::*;
use serde_json::{Value, json};
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};
use rez_next_repository::package_repository::{FilesystemPackageRepository, PackageRepository};
use rez_next_repository::simple_repository::{PackageRepository as SimplePR, SimpleRepository};

const FILES: [(&str, &str); 4] = [("package.py", ""), ("a.txt", "alpha"), ("sub/b.txt", "beta"), ("sub/deep/c.bin", "\u{1}gamma")];

fn add(root: &Path, f: &str, v: &str) {
    let d = root.join(f).join(v);
    for (p, c) in FILES {
        let q = d.join(p);
        fs::create_dir_all(q.parent().unwrap()).expect("VH-TOOL-ERROR mk");
        let c = if p == "package.py" { format!("name = \"{f}\"\nversion = \"{v}\"\n") } else { c.to_string() };
        fs::write(&q, c).expect("VH-TOOL-ERROR write");
    }
    let _ = std::os::unix::fs::symlink("../../../outside", d.join("link"));
}
/// 0 absent, 1 complete, 2 partial
fn payload(root: &Path, f: &str, v: &str) -> i64 {
    let d = root.join(f).join(v);
    if fs::symlink_metadata(&d).is_err() { return 0; }
    let all = FILES.iter().all(|(p, c)| {
        let c = if *p == "package.py" { format!("name = \"{f}\"\nversion = \"{v}\"\n") } else { c.to_string() };
        fs::read_to_string(d.join(p)).map(|x| x == c).unwrap_or(false)
    }) && fs::symlink_metadata(d.join("link")).is_ok();
    if all { 1 } else { 2 }
}
fn mark(root: &Path, f: &str, v: &str) -> i64 {
    match fs::metadata(root.join(f).join(format!(".ignore{v}"))) {
        Err(_) => -1,
        Ok(m) => SystemTime::now().duration_since(m.modified().unwrap()).unwrap_or_default().as_secs() as i64 / 86400,
    }
}
fn names(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }

fn observe(root: &Path, fams: &[String], vers: &[String]) -> Value {
    let repo = FilesystemPackageRepository::new(root);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut fl: Vec<String> = repo.iter_package_families().map(|v| v.into_iter().map(|x| x.name).collect()).unwrap_or(vec!["?".into()]);
    fl.sort();
    let simple = SimpleRepository::new(root, "s".into());
    let idx = |v: &str| vers.iter().position(|x| x == v).map(|i| i as i64 + 1).unwrap_or(0);
    let mut vis = vec![];
    let mut sol = vec![];
    for f in fams {
        let mut l: Vec<i64> = match repo.get_package_family(f) {
            Ok(Some(fam)) => repo.iter_packages(&fam).map(|v| v.iter().map(|p| idx(p.version().map(|v| v.as_str().to_string()).unwrap_or_default().as_str())).collect()).unwrap_or(vec![-9]),
            Ok(None) => vec![],
            Err(_) => vec![-9],
        };
        l.sort();
        vis.push(l);
        let mut l: Vec<i64> = rt.block_on(simple.find_packages(f)).map(|v| v.iter().map(|p| idx(p.version.as_ref().map(|v| v.as_str()).unwrap_or(""))).collect()).unwrap_or(vec![-9]);
        l.sort();
        sol.push(l);
    }
    let out = root.parent().unwrap().join("outside");
    let outer = fs::read_to_string(out.join("keep.txt")).map(|x| x == "keep").unwrap_or(false) && out.join("d/e.txt").exists();
    let mut extra: Vec<String> = fs::read_dir(root).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).filter(|n| !fams.contains(n)).collect()).unwrap_or_default();
    extra.sort();
    json!({
        "pay": fams.iter().map(|f| vers.iter().map(|v| payload(root, f, v)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "mark": fams.iter().map(|f| vers.iter().map(|v| mark(root, f, v)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "dir": fams.iter().map(|f| root.join(f).is_dir() as i64).collect::<Vec<_>>(),
        "fams": fams.iter().map(|f| fl.contains(f) as i64).collect::<Vec<_>>(),
        "vis": vis, "sol": sol, "outer": outer as i64, "extra": extra.len(),
    })
}

/// performs one repository operation; result as text
pub fn child(op: &Value) -> Value {
    let root = PathBuf::from(s(op, "root"));
    let ro = op["ro"] == json!(1);
    let mut r = FilesystemPackageRepository::new(&root).with_read_only(ro);
    let f = s(op, "fam");
    let v = s(op, "ver");
    let v = if v.is_empty() { None } else { Some(v) };
    let n = |x: Result<i32, _>| -> String { match x { Ok(k) => k.to_string(), Err::<i32, rez_next_common::RezCoreError>(_) => "err".into() } };
    let b = |x: Result<bool, _>| -> String { match x { Ok(k) => k.to_string(), Err::<bool, rez_next_common::RezCoreError>(_) => "err".into() } };
    json!(match s(op, "op") {
        "ignore" => n(r.ignore_package(f, v, op["allow"] == json!(1))),
        "unignore" => n(r.unignore_package(f, v)),
        "remove" => b(r.remove_package(f, v)),
        "removefam" => b(r.remove_package_family(f, op["force"] == json!(1))),
        "since" => n(r.remove_ignored_since(op["days"].as_i64().unwrap() as i32, op["dry"] == json!(1), false)),
        x => { eprintln!("VH-TOOL-ERROR op {x}"); std::process::exit(3) }
    })
}

pub fn run(case: &Value) -> Value {
    let base = fresh_dir();
    let root = base.join("repo");
    fs::create_dir_all(&root).unwrap();
    fs::create_dir_all(base.join("outside/d")).unwrap();
    fs::write(base.join("outside/keep.txt"), "keep").unwrap();
    fs::write(base.join("outside/d/e.txt"), "e").unwrap();
    let fams = names(&case["init"]["fams"]);
    let vers = names(&case["init"]["vers"]);
    let mut out = vec![];
    for st in case["steps"].as_array().unwrap() {
        let mut o = st.clone();
        let i = st["i"].as_u64().unwrap_or(1) as usize - 1;
        let j = st["j"].as_u64().unwrap_or(1) as usize - 1;
        let (f, v) = (&fams[i], &vers[j]);
        o["res"] = json!("");
        o["hit"] = json!(0);
        o["end"] = json!("ok");
        match s(st, "op") {
            "add" => add(&root, f, v),
            "age" => {
                let m = root.join(f).join(format!(".ignore{v}"));
                if m.is_file() {
                    let t = SystemTime::now() - Duration::from_secs(st["days"].as_u64().unwrap() * 86400 + 3600);
                    fs::File::options().write(true).open(&m).unwrap().set_modified(t).unwrap();
                }
            }
            _ => {
                let mut op = st.clone();
                op["root"] = json!(root);
                op["fam"] = json!(f);
                op["ver"] = json!(v);
                let at = st["at"].as_i64().unwrap_or(0);
                if at > 0 {
                    let c = crate::util::child("fsrepo", &op, s(st, "mode"), at, st["sticky"] == json!(1), &root, Some(&root));
                    o["end"] = json!(c.end);
                    o["res"] = if c.res.is_null() { json!("none") } else { c.res };
                    o["hit"] = json!(c.hit as i64);
                    o["esc"] = json!(c.escapes.len());
                } else {
                    match guard(|| child(&op)) {
                        Ok(r) => o["res"] = r,
                        Err(e) => { o["op"] = json!("panic"); o["panic"] = json!(e); }
                    }
                }
            }
        }
        o["obs"] = observe(&root, &fams, &vers);
        out.push(o);
    }
    let _ = fs::remove_dir_all(&base);
    with_steps(case, out)
}
