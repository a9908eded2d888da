//! Package discovery and search over repositories on disk.
use crate::util::*;
use serde_json::{Value, json};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use rez_next_package::Package;
use rez_next_repository::package_search::{get_plugins, get_reverse_dependency_tree};
use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
use rez_next_repository::{FileSystemRepository, PackageSearchCriteria, Repository};
use rez_next_version::Version;

fn marker(base: &Path, st: &Value) -> PathBuf {
    let r = base.join(format!("r{}", st["r"]));
    let (f, v) = (s(st, "f"), s(st, "v"));
    if v.is_empty() { r.join(format!(".ignore{f}")) } else { r.join(f).join(format!(".ignore{v}")) }
}
fn dir(base: &Path, st: &Value) -> PathBuf {
    let d = base.join(format!("r{}", st["r"])).join(s(st, "f"));
    if s(st, "v").is_empty() { d } else { d.join(s(st, "v")) }
}
/// where a package was found: repository, family directory, version directory
fn key(base: &Path, p: &Package) -> Value {
    let path = PathBuf::from(p.filepath.clone().unwrap_or_default());
    let rel: Vec<String> = path.strip_prefix(base).map(|x| x.iter().map(|y| y.to_string_lossy().into_owned()).collect()).unwrap_or_default();
    let n: i64 = rel.first().and_then(|x| x[1..].parse().ok()).unwrap_or(0);
    json!({"r": n, "f": rel.get(1).cloned().unwrap_or_default(), "v": if rel.len() == 4 { rel[2].clone() } else { String::new() }})
}
fn keys(base: &Path, v: &[Arc<Package>]) -> Value { json!(v.iter().map(|p| key(base, p)).collect::<Vec<_>>()) }
fn optver(p: &Package) -> Value { json!(p.version.iter().map(|v| codes(v.as_str())).collect::<Vec<_>>()) }

fn manager(base: &Path, order: &[i64]) -> Arc<RepositoryManager> {
    let mut m = RepositoryManager::new();
    for r in order { m.add_repository(Box::new(SimpleRepository::new(base.join(format!("r{r}")), format!("r{r}")))); }
    Arc::new(m)
}
async fn ask(base: PathBuf, m: Arc<RepositoryManager>, q: Value) -> Value {
    let mut o = q.clone();
    let name = s(&q, "name").to_string();
    let r: Result<Value, String> = match s(&q, "q") {
        "list" => m.list_packages().await.map(|x| json!(x)).map_err(|e| e.to_string()),
        "find" => m.find_packages(&name).await.map(|x| keys(&base, &x)).map_err(|e| e.to_string()),
        "get" => m.get_package(&name, Some(&text(&q["ver"]))).await.map(|x| json!(x.iter().map(|p| key(&base, p)).collect::<Vec<_>>())).map_err(|e| e.to_string()),
        "latest" => m.get_package(&name, None).await.map(|x| json!(x.iter().map(|p| key(&base, p)).collect::<Vec<_>>())).map_err(|e| e.to_string()),
        x => panic!("VH-TOOL-ERROR {x}"),
    };
    match r { Ok(x) => { o["err"] = json!(false); o["got"] = x; } Err(_) => { o["err"] = json!(true); o["got"] = json!([]); } }
    o
}

pub fn run(case: &Value) -> Value {
    let base = fresh_dir();
    let n = case["init"]["repos"].as_i64().unwrap();
    let order: Vec<i64> = (1..=n).collect();
    for r in &order { fs::create_dir_all(base.join(format!("r{r}"))).expect("VH-TOOL-ERROR mk"); }
    let paths: Vec<String> = order.iter().map(|r| base.join(format!("r{r}")).display().to_string()).collect();
    let mut out = vec![];
    for st in case["steps"].as_array().unwrap() {
        let mut o = st.clone();
        let res = guard(|| match s(st, "op") {
            "put" => {
                let d = dir(&base, st);
                fs::create_dir_all(&d).expect("VH-TOOL-ERROR mk");
                fs::write(d.join("package.py"), s(st, "text")).expect("VH-TOOL-ERROR write");
            }
            "drop" => {
                let d = dir(&base, st);
                if s(st, "v").is_empty() { let _ = fs::remove_file(d.join("package.py")); } else { let _ = fs::remove_dir_all(d); }
            }
            "hide" => { let m = marker(&base, st); fs::create_dir_all(m.parent().unwrap()).expect("VH-TOOL-ERROR mk"); fs::write(m, "").expect("VH-TOOL-ERROR write"); }
            "unhide" => { let _ = fs::remove_file(marker(&base, st)); }
            "ask" => {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
                let qs = st["qs"].as_array().unwrap().clone();
                let par = st["par"] == json!(1);
                let m = manager(&base, &order);
                let ans = rt.block_on(async {
                    let mut a = vec![];
                    if par {
                        let hs: Vec<_> = qs.into_iter().map(|q| tokio::spawn(ask(base.clone(), m.clone(), q))).collect();
                        for h in hs { a.push(h.await.expect("query panicked")); }
                    } else { for q in qs { a.push(ask(base.clone(), m.clone(), q).await); } }
                    a
                });
                o["ans"] = json!(ans);
                o.as_object_mut().unwrap().remove("qs");
            }
            "fsr" => {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                let mut r = FileSystemRepository::new(base.join(format!("r{}", st["r"])), None);
                o["err"] = json!(rt.block_on(r.initialize()).is_err());
                o["names"] = json!(rt.block_on(r.get_package_names()).unwrap());
                o["fams"] = json!(st["ask"].as_array().unwrap().iter().map(|x| {
                    let name = x.as_str().unwrap();
                    let vs: Vec<Version> = rt.block_on(r.get_package_versions(name)).unwrap();
                    let l = rt.block_on(r.get_package(name, None)).unwrap();
                    json!({"name": name, "vers": vs.iter().map(|v| codes(v.as_str())).collect::<Vec<_>>(), "exists": rt.block_on(r.package_exists(name, None)).unwrap(),
                           "latest": l.iter().map(optver).collect::<Vec<_>>()})
                }).collect::<Vec<_>>());
                let crit = |limit| PackageSearchCriteria { name_pattern: Some("*".into()), version_requirement: None, requirements: vec![], include_prerelease: true, limit };
                let l = |v: Vec<Package>| json!(v.iter().map(|p| json!([p.name, optver(p)])).collect::<Vec<_>>());
                o["all"] = l(rt.block_on(r.find_packages(&crit(None))).unwrap());
                o["limited"] = l(rt.block_on(r.find_packages(&crit(Some(st["limit"].as_u64().unwrap() as usize)))).unwrap());
            }
            k @ ("search" | "badsearch" | "form" | "depends") => {
                let mut a: Vec<String> = st["args"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                if k == "depends" { a.push("--paths".into()); a.push(std::env::join_paths(&paths).expect("VH-TOOL-ERROR join").into_string().unwrap()); }
                else { let rest = a.split_off(1); for p in &paths { a.push("--repository".into()); a.push(p.clone()); } a.extend(rest); }
                let c = child("cli", &json!({"args": a, "cwd": base, "env": {"HOME": base, "TMPDIR": base}}), "off", 0, false, &base, None);
                o["code"] = c.res["code"].clone();
                let (out, err) = (c.res["out"].as_str().unwrap_or(""), c.res["err"].as_str().unwrap_or(""));
                if err.contains("panicked at") { panic!("{err}"); }
                if k == "search" && st["json"] == json!(1) {
                    let v: Value = serde_json::from_str(out).unwrap_or(json!([{"name": format!("unreadable: {out}")}]));
                    o["got"] = json!(v.as_array().unwrap().iter().map(|x| json!({"name": s(x, "name"), "ver": x["version"].as_str().iter().map(|v| codes(v)).collect::<Vec<_>>(), "score": x["match_score"].as_f64().unwrap_or(-1.0) as i64})).collect::<Vec<_>>());
                } else if k == "depends" {
                    o["got"] = json!(if out.starts_with("No packages") { vec![] } else { out.lines().map(|l| { let l = match (l.starts_with('#'), l.split_once(": ")) { (true, Some((_, y))) => y, _ => l }; l.split_whitespace().map(String::from).collect::<Vec<_>>() }).collect() });
                } else { o["got"] = json!([]); }
            }
            k @ ("tree" | "plugins") => {
                let d = st["depth"].as_i64().unwrap_or(-1);
                let t = s(st, "target");
                o["got"] = if k == "plugins" { json!(get_plugins(t, Some(paths.clone()))) }
                    else { json!(get_reverse_dependency_tree(t, if d < 0 { None } else { Some(d as usize) }, Some(paths.clone()), st["b"] == json!(true), st["p"] == json!(true)).0) };
            }
            x => panic!("VH-TOOL-ERROR {x}"),
        });
        if let Err(e) = res { out.push(json!({"op": "panic", "what": e, "step": st})); break; }
        out.push(o);
    }
    let _ = fs::remove_dir_all(&base);
    with_steps(case, out)
}
