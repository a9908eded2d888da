//! package.py modules as the package reader understands them.
use crate::util::*;
use rez_next_package::serialization::PackageSerializer;
use rez_next_package::Package;
use rez_next_rex::{RexActionType as A, RexParser};
use serde_json::{Value, json};

pub fn opt(t: &Option<String>) -> Value { t.as_ref().map(|t| json!([codes(t)])).unwrap_or(json!([])) }
pub fn list(l: &[String]) -> Value { Value::Array(l.iter().map(|t| codes(t)).collect()) }
fn flag(b: Option<bool>) -> Value { b.map(|b| json!([b])).unwrap_or(json!([])) }
pub fn acts(t: &Option<String>) -> Value {
    let Some(t) = t else { return json!([]) };
    let Ok(acts) = RexParser::new().parse(t) else { return json!([["unreadable"]]) };
    let two = |o: &str, a: &str, b: &str| json!([o, codes(a), codes(b)]);
    let one = |o: &str, a: &str| json!([o, codes(a)]);
    Value::Array(acts.iter().map(|a| match &a.action_type {
        A::Setenv { name, value } => two("setenv", name, value),
        A::Unsetenv { name } => one("unsetenv", name),
        A::PrependPath { name, value, .. } => two("prepend", name, value),
        A::AppendPath { name, value, .. } => two("append", name, value),
        A::SetenvIfEmpty { name, value } => two("ifempty", name, value),
        A::Alias { name, value } => two("alias", name, value),
        A::Command { cmd } => one("command", cmd),
        A::Source { path } => one("source", path),
        A::Comment { text } => one("comment", text),
        A::Resetenv { name } => one("resetenv", name),
        A::Info { message } => one("info", message),
        A::Error { message } => one("error", message),
        A::Stop { message: Some(m) } => one("stop", m),
        A::Stop { message: None } => json!(["stop"]),
    }).collect())
}
pub fn fields(p: &Package) -> Value {
    let mut tests: Vec<_> = p.tests.iter().collect();
    tests.sort();
    json!({
        "name": [codes(&p.name)], "version": opt(&p.version.as_ref().map(|v| v.as_str().to_string())), "description": opt(&p.description),
        "build_command": opt(&p.build_command), "build_system": opt(&p.build_system), "uuid": opt(&p.uuid), "help": opt(&p.help), "base": opt(&p.base),
        "preprocess": opt(&p.preprocess), "requires_rez_version": opt(&p.requires_rez_version),
        "authors": list(&p.authors), "requires": list(&p.requires), "build_requires": list(&p.build_requires), "private_build_requires": list(&p.private_build_requires),
        "tools": list(&p.tools), "plugin_for": list(&p.plugin_for),
        "relocatable": flag(p.relocatable), "cachable": flag(p.cachable), "hashed_variants": flag(p.hashed_variants), "has_plugins": flag(p.has_plugins),
        "variants": p.variants.iter().map(|v| list(v)).collect::<Vec<_>>(), "tests": tests.iter().map(|(k, v)| json!([codes(k), codes(v)])).collect::<Vec<_>>(),
        "format_version": p.format_version.map(|n| json!([n])).unwrap_or(json!([])),
    })
}
fn seen(p: &Result<Package, String>) -> Value {
    match p {
        Err(_) => json!({"ok": false}),
        Ok(p) => json!({"ok": true, "fields": fields(p), "acts": {"commands": acts(&p.commands), "pre_commands": acts(&p.pre_commands), "post_commands": acts(&p.post_commands)},
            "fn": opt(&p.commands_function) == opt(&p.commands)}),
    }
}
pub fn run(case: &Value) -> Value {
    let src = s(&case["init"], "text").to_string();
    let mut out = Vec::new();
    for st in case["steps"].as_array().unwrap() {
        let mut o = st.clone();
        if s(st, "op") == "read" {
            let r = guard(|| {
                let a = seen(&PackageSerializer::load_from_python(&src).map_err(|e| e.to_string()));
                let d = fresh_dir();
                std::fs::write(d.join("package.py"), &src).expect("VH-TOOL-ERROR write");
                let b = seen(&PackageSerializer::load_from_file(&d.join("package.py")).map_err(|e| e.to_string()));
                let c = seen(&Package::from_path(&d).map_err(|e| e.to_string()));
                let _ = std::fs::remove_dir_all(&d);
                let same = a == b && a == c && a["fn"] != json!(false);
                (a, same)
            });
            match r {
                Ok((a, same)) => { o["ok"] = a["ok"].clone(); if a["ok"] == json!(true) { o["fields"] = a["fields"].clone(); o["acts"] = a["acts"].clone(); } o["same"] = json!(same); }
                Err(e) => { o = json!({"op": "panic", "what": e}); }
            }
        }
        out.push(o);
    }
    with_steps(case, out)
}
