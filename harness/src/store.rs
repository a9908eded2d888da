//! Copying, moving and removing packages between repositories, through the library and the command line.
use crate::util::*;
use rez_next_package::package_copy::{PackageCopyConfig, copy_package};
use rez_next_package::package_move::{PackageMoveConfig, move_package};
use rez_next_package::package_remove::{PackageRemoveConfig, remove_package_family, remove_package_version};
use serde_json::{Value, json};
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

fn files(n: &str, v: &str, k: u64) -> Vec<(String, String, u32)> {
    let mut f = vec![
        ("package.py".to_string(), format!("name = \"{n}\"\nversion = \"{v}\"\ndescription = \"contents {k}\"\n"), 0o644),
        ("bin/tool.sh".to_string(), format!("#!/bin/sh\necho {k}\n"), 0o755),
        ("lib/deep/er/data.bin".to_string(), format!("\u{1}\u{2}{k}").repeat(3000), 0o640),
        ("empty.txt".to_string(), String::new(), 0o644),
    ];
    for i in 0..k { f.push((format!("only-{k}-{i}.txt"), format!("{k}{i}"), 0o600)); }
    f
}
fn put(d: &Path, n: &str, v: &str, k: u64) {
    let _ = fs::remove_dir_all(d);
    for (p, c, m) in files(n, v, k) {
        let q = d.join(&p);
        fs::create_dir_all(q.parent().unwrap()).expect("VH-TOOL-ERROR mk");
        fs::write(&q, c).expect("VH-TOOL-ERROR write");
        fs::set_permissions(&q, fs::Permissions::from_mode(m)).expect("VH-TOOL-ERROR chmod");
    }
    fs::create_dir_all(d.join("void")).expect("VH-TOOL-ERROR mk");
    std::os::unix::fs::symlink("tool.sh", d.join("bin/alias")).expect("VH-TOOL-ERROR ln");
}
/// relative path -> content+mode of every entry, following links
fn tree(d: &Path, rel: &str, out: &mut Vec<(String, String, u32)>) {
    let Ok(rd) = fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
        match fs::metadata(e.path()) {
            Ok(m) if m.is_dir() => { out.push((r.clone() + "/", String::new(), 0)); tree(&e.path(), &r, out) }
            Ok(m) => out.push((r, String::from_utf8_lossy(&fs::read(e.path()).unwrap_or_default()).into_owned(), m.permissions().mode() & 0o777)),
            Err(_) => out.push((r, "?".into(), 0)),
        }
    }
}
fn expected(n: &str, v: &str, k: u64) -> Vec<(String, String, u32)> {
    let mut f = files(n, v, k);
    let t = f[1].clone();
    f.push(("bin/alias".into(), t.1, t.2));
    for d in ["bin/", "lib/", "lib/deep/", "lib/deep/er/", "void/"] { f.push((d.into(), String::new(), 0)); }
    f.sort();
    f
}
fn cell(root: &Path, n: &str, v: &str) -> i64 {
    for d in [root.join(n).join(v), root.join(n).join(format!("{n}-{v}"))] {
        if fs::symlink_metadata(&d).is_err() { continue; }
        let mut t = vec![];
        tree(&d, "", &mut t);
        t.sort();
        return (1..=4).find(|k| expected(n, v, *k) == t).map(|k| k as i64).unwrap_or(9);
    }
    0
}
fn marker(root: &Path, n: &str, v: &str) -> i64 {
    match fs::metadata(root.join(n).join(format!(".ignore{v}"))) {
        Err(_) => -1,
        Ok(m) => SystemTime::now().duration_since(m.modified().unwrap()).unwrap_or_default().as_secs() as i64 / 86400,
    }
}
fn names(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }

pub fn child(op: &Value) -> Value {
    let paths: Vec<PathBuf> = op["roots"].as_array().unwrap().iter().map(|p| PathBuf::from(p.as_str().unwrap())).collect();
    let dest = PathBuf::from(s(op, "droot"));
    let (n, v) = (s(op, "name"), s(op, "ver"));
    let force = op["force"] == json!(1);
    match s(op, "op") {
        "cp" => match copy_package(n, v, &dest, &PackageCopyConfig { packages_path: paths, force, ..Default::default() }) { Ok(_) => json!("ok"), Err(_) => json!("err") },
        "mv" => match move_package(n, v, &dest, &PackageMoveConfig { packages_path: paths, force, keep_source: op["keep"] == json!(1), ..Default::default() }) { Ok(_) => json!("ok"), Err(_) => json!("err") },
        "rm" => {
            let c = PackageRemoveConfig { packages_path: paths, force: true, ..Default::default() };
            match if v.is_empty() { remove_package_family(n, &c) } else { remove_package_version(n, v, &c) } { Ok(_) => json!("ok"), Err(_) => json!("err") }
        }
        x => { eprintln!("VH-TOOL-ERROR op {x}"); std::process::exit(3) }
    }
}

pub fn run(case: &Value) -> Value {
    let base = fresh_dir();
    let nr = case["init"]["nr"].as_u64().unwrap() as usize;
    let ns = names(&case["init"]["names"]);
    let vs = names(&case["init"]["vers"]);
    let roots: Vec<PathBuf> = (0..nr).map(|r| base.join("stores").join(format!("r{}", r + 1))).collect();
    for r in &roots { fs::create_dir_all(r).expect("VH-TOOL-ERROR mk"); }
    let home = base.join("home");
    fs::create_dir_all(&home).unwrap();
    let mut out = vec![];
    for st in case["steps"].as_array().unwrap() {
        let mut o = st.clone();
        let ix = |k: &str| st[k].as_u64().unwrap_or(0) as usize;
        let n = &ns[ix("n").max(1) - 1];
        let v = if ix("v") == 0 { "" } else { vs[ix("v") - 1].as_str() };
        let dest = &roots[ix("dest").max(1) - 1];
        o["res"] = json!("");
        o["hit"] = json!(0);
        o["escapes"] = json!(0);
        match s(st, "op") {
            "put" => put(&(if ix("alt") == 1 { dest.join(n).join(format!("{n}-{v}")) } else { dest.join(n).join(v) }), n, v, st["k"].as_u64().unwrap()),
            "mark" => {
                let m = dest.join(n).join(format!(".ignore{v}"));
                let d = st["days"].as_i64().unwrap();
                if d < 0 { let _ = fs::remove_file(&m); } else {
                    let f = fs::File::create(&m).expect("VH-TOOL-ERROR mark");
                    f.set_modified(SystemTime::now() - Duration::from_secs(d as u64 * 86400 + 3600)).expect("VH-TOOL-ERROR mtime");
                }
            }
            k => {
                let paths: Vec<&PathBuf> = st["paths"].as_array().unwrap().iter().map(|p| &roots[p.as_u64().unwrap() as usize - 1]).collect();
                let at = st["at"].as_i64().unwrap_or(0);
                let mode = if at > 0 { s(st, "mode") } else { "off" };
                let sticky = st["sticky"] == json!(1);
                let stores = base.join("stores");
                let c = if s(st, "ui") == "lib" {
                    let mut op = st.clone();
                    op["roots"] = json!(paths); op["droot"] = json!(dest); op["name"] = json!(n); op["ver"] = json!(v);
                    crate::util::child("store", &op, mode, at, sticky, &stores, Some(&stores))
                } else {
                    let spec = if v.is_empty() { n.clone() } else { format!("{n}-{v}") };
                    let flag = |a: &mut Vec<String>, k: &str, f: &str| if st[k] == json!(1) { a.push(f.into()) };
                    let mut a: Vec<String> = vec![if k == "since" { "rm" } else { k }.into()];
                    if k == "cp" || k == "mv" {
                        a.push(spec); a.push(dest.display().to_string());
                        for p in &paths { a.push("--src-path".into()); a.push(p.display().to_string()); }
                        flag(&mut a, "force", "--force");
                        flag(&mut a, "keep", "--keep-source");
                    } else {
                        if k == "rm" { a.push(spec); if ix("fam") == 1 { a.push("--family".into()); } } else { a.push("--ignored-since".into()); a.push(format!("{}d", st["days"])); }
                        for p in &paths { a.push("--paths".into()); a.push(p.display().to_string()); }
                        a.push("--force".into());
                    }
                    flag(&mut a, "dry", "--dry-run");
                    let op = json!({"args": a, "cwd": home, "env": {"HOME": home, "TMPDIR": home}});
                    crate::util::child("cli", &op, mode, at, sticky, &stores, Some(&base))
                };
                o["hit"] = json!(c.hit as i64);
                o["escapes"] = json!(c.escapes.len());
                o["end"] = json!(c.end);
                o["res"] = if s(st, "ui") == "lib" { if c.res.is_null() { json!("none") } else { c.res } }
                           else if c.end == "crash" { json!("none") } else if c.res["code"] == json!(0) { json!("ok") } else { json!("err") };
                if o["res"] == json!("none") && c.end != "crash" { o["op"] = json!("panic"); o["end"] = json!(c.end); }
            }
        }
        let mut extra = 0;
        for r in &roots {
            for e in fs::read_dir(r).expect("VH-TOOL-ERROR rd").flatten() {
                let f = e.file_name().to_string_lossy().into_owned();
                if f.starts_with('.') { continue; }
                if !ns.contains(&f) { extra += 1; continue; }
                for e in fs::read_dir(e.path()).into_iter().flatten().flatten() {
                    let g = e.file_name().to_string_lossy().into_owned();
                    if !g.starts_with('.') && !vs.contains(&g) && !vs.iter().any(|v| g == format!("{f}-{v}")) { extra += 1; }
                }
            }
        }
        o["extra"] = json!(extra);
        o["c"] = json!(roots.iter().map(|r| ns.iter().map(|n| vs.iter().map(|v| cell(r, n, v)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>());
        o["mk"] = json!(roots.iter().map(|r| ns.iter().map(|n| vs.iter().map(|v| marker(r, n, v)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>());
        out.push(o);
    }
    let _ = fs::remove_dir_all(&base);
    with_steps(case, out)
}
