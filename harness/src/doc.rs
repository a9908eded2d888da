//! Package definitions and resolved contexts saved to files and loaded back.
use crate::util::*;
use rez_next_context::{ContextFormat, ContextSerializer, ContextStatus, PathStrategy, ResolvedContext, ShellType};
use rez_next_package::serialization::{PackageFormat, PackageSerializer, SerializationOptions};
use rez_next_package::{Package, PackageRequirement};
use rez_next_version::Version;
use serde_json::{Value, json};
use std::collections::HashMap;

fn one(v: &Value) -> Option<String> { v.get(0).map(|t| t.as_str().expect("VH-TOOL-ERROR text").to_string()) }
fn many(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|t| t.as_str().expect("VH-TOOL-ERROR text").to_string()).collect()).unwrap_or_default() }
fn flag(v: &Value) -> Option<bool> { v.get(0).and_then(|b| b.as_bool()) }
fn map(v: &Value) -> HashMap<String, String> { v.as_array().map(|a| a.iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())).collect()).unwrap_or_default() }
fn o(t: &Option<String>) -> Value { t.as_ref().map(|t| json!([t])).unwrap_or(json!([])) }
fn ob(t: Option<bool>) -> Value { t.map(|t| json!([t])).unwrap_or(json!([])) }
fn om(m: &HashMap<String, String>) -> Value { let mut v: Vec<_> = m.iter().collect(); v.sort(); json!(v) }
pub fn build(d: &Value) -> Package {
    let mut p = Package::new(one(&d["name"]).expect("VH-TOOL-ERROR name"));
    p.version = one(&d["version"]).map(|v| Version::parse(&v).expect("VH-TOOL-ERROR version"));
    p.previous_version = one(&d["previous_version"]).map(|v| Version::parse(&v).expect("VH-TOOL-ERROR version"));
    p.description = one(&d["description"]); p.authors = many(&d["authors"]); p.requires = many(&d["requires"]);
    p.build_requires = many(&d["build_requires"]); p.private_build_requires = many(&d["private_build_requires"]);
    p.variants = d["variants"].as_array().unwrap().iter().map(many).collect(); p.tools = many(&d["tools"]);
    p.commands = one(&d["commands"]); p.commands_function = p.commands.clone();
    p.build_command = one(&d["build_command"]); p.build_system = one(&d["build_system"]);
    p.pre_commands = one(&d["pre_commands"]); p.post_commands = one(&d["post_commands"]);
    p.pre_test_commands = one(&d["pre_test_commands"]); p.pre_build_commands = one(&d["pre_build_commands"]);
    p.tests = map(&d["tests"]); p.requires_rez_version = one(&d["requires_rez_version"]); p.uuid = one(&d["uuid"]); p.help = one(&d["help"]);
    p.relocatable = flag(&d["relocatable"]); p.cachable = flag(&d["cachable"]);
    p.timestamp = one(&d["timestamp"]).map(|t| t.parse().expect("VH-TOOL-ERROR number"));
    p.revision = one(&d["revision"]); p.changelog = one(&d["changelog"]); p.release_message = one(&d["release_message"]);
    p.previous_revision = one(&d["previous_revision"]); p.vcs = one(&d["vcs"]);
    p.format_version = one(&d["format_version"]).map(|t| t.parse().expect("VH-TOOL-ERROR number"));
    p.base = one(&d["base"]); p.has_plugins = flag(&d["has_plugins"]); p.plugin_for = many(&d["plugin_for"]);
    p.hashed_variants = flag(&d["hashed_variants"]); p.preprocess = one(&d["preprocess"]);
    p
}
pub fn see(p: &Package) -> Value {
    let v = |v: &Option<Version>| o(&v.as_ref().map(|v| v.as_str().to_string()));
    json!({"name": [p.name], "version": v(&p.version), "previous_version": v(&p.previous_version), "description": o(&p.description), "authors": p.authors,
        "requires": p.requires, "build_requires": p.build_requires, "private_build_requires": p.private_build_requires, "variants": p.variants, "tools": p.tools,
        "commands": o(&p.commands), "build_command": o(&p.build_command), "build_system": o(&p.build_system), "pre_commands": o(&p.pre_commands),
        "post_commands": o(&p.post_commands), "pre_test_commands": o(&p.pre_test_commands), "pre_build_commands": o(&p.pre_build_commands), "tests": om(&p.tests),
        "requires_rez_version": o(&p.requires_rez_version), "uuid": o(&p.uuid), "help": o(&p.help), "relocatable": ob(p.relocatable), "cachable": ob(p.cachable),
        "timestamp": o(&p.timestamp.map(|t| t.to_string())), "revision": o(&p.revision), "changelog": o(&p.changelog), "release_message": o(&p.release_message),
        "previous_revision": o(&p.previous_revision), "vcs": o(&p.vcs), "format_version": o(&p.format_version.map(|t| t.to_string())), "base": o(&p.base),
        "has_plugins": ob(p.has_plugins), "plugin_for": p.plugin_for, "hashed_variants": ob(p.hashed_variants), "preprocess": o(&p.preprocess)})
}
fn opts(v: &Value) -> Option<SerializationOptions> {
    let mut x = match s(v, "kind") { "" | "default" => SerializationOptions::new(), "minimal" => SerializationOptions::minimal(), _ => SerializationOptions::compact() };
    if s(v, "kind").is_empty() && v["exc"] == json!([]) && v["only"] == json!(false) { return None; }
    x.exclude_fields = if v["exc"] == json!([]) { None } else { Some(many(&v["exc"])) };
    if v["only"] == json!(true) { x.include_only = Some(many(&v["inc"])); }
    if let Some(b) = v["pretty"].as_bool() { x.pretty_print = b; }
    if let Some(b) = v["meta"].as_bool() { x.include_metadata = b; }
    if let Some(b) = v["stamp"].as_bool() { x.include_timestamps = b; }
    Some(x)
}
fn fmt(f: &str) -> PackageFormat {
    match f {
        "yaml" | "yml" => PackageFormat::Yaml, "json" => PackageFormat::Json, "yaml.gz" | "yml.gz" => PackageFormat::YamlCompressed, "json.gz" => PackageFormat::JsonCompressed,
        "py" => PackageFormat::Python, "bin" | "binstr" => PackageFormat::Binary, "toml" => PackageFormat::Toml, _ => panic!("VH-TOOL-ERROR format"),
    }
}
fn context(d: &Value) -> ResolvedContext {
    let reqs = many(&d["requirements"]).iter().map(|r| PackageRequirement::parse(r).expect("VH-TOOL-ERROR requirement")).collect();
    let mut c = ResolvedContext::from_requirements(reqs);
    c.id = one(&d["id"]).unwrap(); c.name = one(&d["name"]); c.environment_vars = map(&d["environment_vars"]); c.metadata = map(&d["metadata"]);
    c.created_at = one(&d["created_at"]).unwrap().parse().unwrap(); c.suite = one(&d["suite"]); c.platform = one(&d["platform"]); c.arch = one(&d["arch"]);
    c.status = match s(d, "status") { "Resolving" => ContextStatus::Resolving, "Resolved" => ContextStatus::Resolved, "Failed" => ContextStatus::Failed, _ => ContextStatus::Cached };
    c.resolved_packages = d["packages"].as_array().unwrap().iter().map(build).collect();
    let g = &d["config"];
    c.config.inherit_parent_env = g[0].as_bool().unwrap();
    c.config.shell_type = match g[1].as_str().unwrap() { "Bash" => ShellType::Bash, "Zsh" => ShellType::Zsh, "Fish" => ShellType::Fish, "PowerShell" => ShellType::PowerShell, _ => ShellType::Cmd };
    c.config.working_directory = one(&g[2]).map(|p| p.into()); c.config.additional_env_vars = map(&g[3]); c.config.unset_vars = many(&g[4]);
    c.config.path_strategy = match g[5].as_str().unwrap() { "Prepend" => PathStrategy::Prepend, "Append" => PathStrategy::Append, "Replace" => PathStrategy::Replace, _ => PathStrategy::NoModify };
    c
}
fn see_context(c: &ResolvedContext) -> Value {
    json!({"id": [c.id], "name": o(&c.name), "requirements": c.requirements.iter().map(|r| r.to_string()).collect::<Vec<_>>(), "environment_vars": om(&c.environment_vars),
        "metadata": om(&c.metadata), "created_at": [c.created_at.to_string()], "suite": o(&c.suite), "platform": o(&c.platform), "arch": o(&c.arch), "status": format!("{:?}", c.status),
        "packages": c.resolved_packages.iter().map(see).collect::<Vec<_>>(),
        "config": [c.config.inherit_parent_env, format!("{:?}", c.config.shell_type), o(&c.config.working_directory.as_ref().map(|p| p.display().to_string())), om(&c.config.additional_env_vars), c.config.unset_vars, format!("{:?}", c.config.path_strategy)]})
}
pub fn run(case: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("VH-TOOL-ERROR runtime");
    let d = fresh_dir();
    let mut out = Vec::new();
    for st in case["steps"].as_array().unwrap() {
        let mut obs = st.clone();
        let path = d.join(s(st, "file"));
        let r = guard(|| match s(st, "op") {
            "save" => {
                let p = build(&st["doc"]);
                let r = match opts(&st["opt"]) { None => PackageSerializer::save_to_file(&p, &path, fmt(s(st, "fmt"))), x => PackageSerializer::save_to_file_with_options(&p, &path, fmt(s(st, "fmt")), x) };
                (json!(r.is_ok()), r.err().map(|e| json!(e.to_string())))
            }
            "load" => match if st["opt"]["kind"] == json!("container") { PackageSerializer::load_from_file_with_options(&path, None).map(|c| c.package) } else { PackageSerializer::load_from_file(&path) } {
                Ok(p) => (json!(true), Some(see(&p))), Err(e) => (json!(false), Some(json!(e.to_string()))) },
            "text" => {
                let p = build(&st["doc"]);
                let f = s(st, "fmt");
                let r = if f == "serde" { serde_json::to_string(&p).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str::<Package>(&t).map_err(|e| e.to_string())) }
                    else { PackageSerializer::save_to_string(&p, fmt(f)).and_then(|t| PackageSerializer::load_from_string(&t, fmt(f))).map_err(|e| e.to_string()) };
                match r { Ok(p) => (json!(true), Some(see(&p))), Err(e) => (json!(false), Some(json!(e))) }
            }
            "cut" => {
                let b = std::fs::read(&path).expect("VH-TOOL-ERROR read");
                let k = (b.len().saturating_sub(1)) * st["keep"].as_u64().unwrap() as usize / 1000;
                std::fs::write(&path, &b[..k]).expect("VH-TOOL-ERROR write");
                (json!(true), None)
            }
            "del" => { std::fs::remove_file(&path).expect("VH-TOOL-ERROR remove"); (json!(true), None) }
            "savectx" => {
                let c = context(&st["doc"]);
                let f = if s(st, "fmt") == "rxt" { ContextFormat::Json } else { ContextFormat::Binary };
                let r = rt.block_on(ContextSerializer::save_to_file(&c, &path, f));
                (json!(r.is_ok()), r.err().map(|e| json!(e.to_string())))
            }
            "loadctx" => {
                let r = rt.block_on(ContextSerializer::load_from_file(&path)).and_then(|c| {
                    let f = if s(st, "fmt") == "rxt" { ContextFormat::Json } else { ContextFormat::Binary };
                    if st["text"] == json!(true) { ContextSerializer::to_string(&c, f.clone()).and_then(|t| ContextSerializer::from_string(&t, f)) } else { Ok(c) } });
                match r { Ok(c) => (json!(true), Some(see_context(&c))), Err(e) => (json!(false), Some(json!(e.to_string()))) }
            }
            _ => panic!("VH-TOOL-ERROR op"),
        });
        match r {
            Ok((ok, got)) => { if let Some(g) = got { obs[if ok == json!(true) { "got" } else { "error" }] = g; } obs["ok"] = ok; }
            Err(e) => { if e.contains("VH-TOOL-ERROR") { panic!("{e}"); } obs = json!({"op": "panic", "what": e}); }
        }
        out.push(obs);
    }
    let _ = std::fs::remove_dir_all(&d);
    with_steps(case, out)
}
