use crate::util::*;
use async_trait::async_trait;
use rez_next_common::RezCoreError;
use rez_next_package::{Package, Requirement};
use rez_next_repository::simple_repository::{PackageRepository, RepositoryManager};
use rez_next_solver::{DependencyResolver, SolverConfig};
use rez_next_version::Version;
use serde_json::{Value, json};
use std::path::Path;
use std::sync::Arc;

pub struct MemRepo(pub Vec<Arc<Package>>);
#[async_trait]
impl PackageRepository for MemRepo {
    async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
        Ok(self.0.iter().filter(|p| p.name == name).cloned().collect())
    }
    async fn get_package(&self, name: &str, version: Option<&str>) -> Result<Option<Arc<Package>>, RezCoreError> {
        Ok(self.0.iter().find(|p| p.name == name && p.version.as_ref().map(|v| v.as_str()) == version).cloned())
    }
    async fn list_packages(&self) -> Result<Vec<String>, RezCoreError> {
        Ok(self.0.iter().map(|p| p.name.clone()).collect())
    }
    fn name(&self) -> &str { "mem" }
    fn root_path(&self) -> &Path { Path::new("/nowhere") }
}

fn op(k: &str) -> &str {
    match k { "eq" => "==", "ne" => "!=", "ge" => ">=", "gt" => ">", "le" => "<=", "lt" => "<", _ => "" }
}
pub fn reqtext(r: &Value) -> String {
    let m = if r["x"] == json!(true) { "!" } else if r["w"] == json!(true) { "~" } else { "" };
    let k = s(r, "k");
    match k {
        "any" => format!("{m}{}", s(r, "n")),
        "pre" => format!("{m}{}-{}", s(r, "n"), r["v"]),
        _ => format!("{m}{}{}{}", s(r, "n"), op(k), r["v"]),
    }
}
fn vtext(k: &Value) -> String {
    format!("{}{}{}", k["v"], s(k, "suffix"), if k["pre"] == json!(true) { ".alpha1" } else { "" })
}
pub fn packages(init: &Value) -> Vec<Arc<Package>> {
    let mut v = vec![];
    for f in init["fam"].as_array().unwrap() {
        for k in f["pk"].as_array().unwrap() {
            let mut p = Package::new(s(f, "n").to_string());
            if k["v"] != json!(0) {
                p.version = Some(Version::parse(&vtext(k)).expect("VH-TOOL-ERROR version"));
            }
            p.requires = k["req"].as_array().unwrap().iter().map(reqtext).collect();
            p.variants = k["var"].as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(reqtext).collect()).collect();
            v.push(Arc::new(p));
        }
    }
    v
}

fn all_reqs(init: &Value) -> Vec<Value> {
    let mut v: Vec<Value> = init["req"].as_array().unwrap().clone();
    for f in init["fam"].as_array().unwrap() {
        for k in f["pk"].as_array().unwrap() {
            v.extend(k["req"].as_array().unwrap().iter().cloned());
            for x in k["var"].as_array().unwrap() { v.extend(x.as_array().unwrap().iter().cloned()); }
        }
    }
    v
}

fn once(init: &Value, rt: &tokio::runtime::Runtime) -> Value {
    let pk = packages(init);
    // packages are split over two repositories
    let mut m = RepositoryManager::new();
    let cut = pk.len() / 2;
    m.add_repository(Box::new(MemRepo(pk[cut..].to_vec())));
    m.add_repository(Box::new(MemRepo(pk[..cut].to_vec())));
    let cfg = SolverConfig {
        prefer_latest: init["latest"] == json!(true),
        allow_prerelease: init["pre"] == json!(true),
        strict_mode: init["strict"] == json!(true),
        ..SolverConfig::default()
    };
    let req: Vec<Requirement> = init["req"].as_array().unwrap().iter()
        .map(|r| reqtext(r).parse::<Requirement>().expect("VH-TOOL-ERROR req")).collect();
    let mut rs = DependencyResolver::new(Arc::new(m), cfg);
    match rt.block_on(rs.resolve(req)) {
        Ok(d) => {
            let sel: Vec<Value> = d.resolved_packages.iter().map(|i| {
                let v: u64 = i.package.version.as_ref().map(|v| v.as_str().split('.').next().unwrap().parse().unwrap()).unwrap_or(0);
                json!({"n": i.package.name, "v": v, "var": i.variant_index.map(|x| x + 1).unwrap_or(0)})
            }).collect();
            // map failed requirements back to the request's records
            let all: Vec<(Requirement, Value)> = all_reqs(init).into_iter().map(|r| {
                let q: Requirement = reqtext(&r).parse().expect("VH-TOOL-ERROR req");
                (q, r)
            }).collect();
            let mut failed: Vec<Value> = vec![];
            for q in &d.failed_requirements {
                let v = all.iter().find(|(a, _)| a == q).map(|(_, r)| r.clone()).unwrap_or(json!({"n": q.name, "k": "?", "v": 0, "w": false, "x": false}));
                if !failed.contains(&v) { failed.push(v); }
            }
            failed.sort_by_key(|v| v.to_string());
            json!({"ok": 1, "sel": sel, "failed": failed})
        }
        Err(e) => json!({"ok": 0, "sel": [], "failed": [], "cyc": e.to_string().contains("yclic")}),
    }
}

/// the same request through the synchronous front end, as (name, version) pairs; None for an error
fn facade(init: &Value) -> Option<Vec<(String, String)>> {
    use rez_next_package::PackageRequirement;
    use rez_next_solver::{DependencySolver, SolverRequest};
    let mut m = RepositoryManager::new();
    let pk = packages(init);
    let cut = pk.len() / 2;
    m.add_repository(Box::new(MemRepo(pk[cut..].to_vec())));
    m.add_repository(Box::new(MemRepo(pk[..cut].to_vec())));
    let cfg = SolverConfig {
        prefer_latest: init["latest"] == json!(true),
        allow_prerelease: init["pre"] == json!(true),
        strict_mode: init["strict"] == json!(true),
        ..SolverConfig::default()
    };
    let mut q = SolverRequest::new(vec![]);
    for r in init["req"].as_array().unwrap() {
        let x = r["x"] == json!(true);
        if x && s(r, "k") == "any" { q = q.with_exclude(s(r, "n").to_string()); continue; }
        let mut plain = r.clone();
        if r["w"] == json!(true) {
            plain["w"] = json!(false);
            q = q.with_constraint(PackageRequirement::parse(&reqtext(&plain)).expect("VH-TOOL-ERROR req"));
        } else {
            q.requirements.push(PackageRequirement::parse(&reqtext(r)).expect("VH-TOOL-ERROR req"));
        }
    }
    let d = DependencySolver::with_config(cfg).with_repository_manager(Arc::new(m));
    let mut v: Vec<_> = d.resolve(q).ok()?.packages.iter().map(|p| (p.name.clone(), p.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default())).collect();
    v.sort();
    Some(v)
}

pub fn run(case: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let mut out = vec![];
    for st in case["steps"].as_array().unwrap() {
        let mut init = case["init"].clone();
        if init.get("x").is_none() { init["x"] = json!(0); }
        let r = guard(|| {
            let a = once(&init, &rt);
            let mut same = 1;
            for _ in 0..2 { if once(&init, &rt) != a { same = 0; } }
            let mut o = a;
            o["fac"] = json!([]);
            o["facok"] = json!(2);
            if st["fac"] == json!(1) {
                match facade(&init) {
                    None => o["facok"] = json!(0),
                    Some(v) => {
                        o["facok"] = json!(1);
                        o["fac"] = Value::Array(v.iter().map(|(n, v)| json!({"n": n, "v": v.split('.').next().unwrap().parse::<u64>().unwrap_or(0)})).collect());
                    }
                }
            }
            o["op"] = st["op"].clone();
            o["same"] = json!(same);
            o
        });
        out.push(r.unwrap_or_else(|e| json!({"op":"panic","panic":e,"was":st})));
    }
    with_steps(case, out)
}
