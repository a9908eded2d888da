//! Suites on disk, edited through the library and the command line; every edit in a process of its own.
use crate::util::*;
use rez_next_suites::{Suite, SuiteManager, ToolConflictMode};
use serde_json::{Value, json};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() }
fn edit(op: &Value) -> Result<(), String> {
    let path = PathBuf::from(s(op, "path"));
    let e = |x: rez_next_suites::SuiteError| x.to_string();
    if s(op, "op") == "create" {
        // what "create" does through the library: it is up to the caller not to overwrite another suite
        if Suite::is_suite(&path) { return Err("exists".into()); }
        let mut y = Suite::new().with_conflict_mode(s(op, "mode").parse::<ToolConflictMode>()?);
        if let Some(d) = strs(&op["desc"]).first() { y = y.with_description(d.clone()); }
        return y.save(&path).map_err(e);
    }
    let mut y = Suite::load(&path).map_err(e)?;
    let n = s(op, "n");
    match s(op, "op") {
        "add" => {
            y.add_context(n, strs(&op["reqs"])).map_err(e)?;
            let c = y.get_context_mut(n).ok_or("gone")?;
            c.prefix = strs(&op["prefix"]).first().cloned();
            c.priority = op["prio"].as_i64().unwrap() as i32;
        }
        "remove" => y.remove_context(n).map_err(e)?,
        "alias" => y.alias_tool(n, s(op, "alias"), s(op, "tool")).map_err(e)?,
        "hide" => y.hide_tool(n, s(op, "tool")).map_err(e)?,
        "off" => { let c = y.get_context_mut(n).ok_or("none")?; c.disabled = !c.disabled; }
        "save" => {}
        x => { eprintln!("VH-TOOL-ERROR op {x}"); std::process::exit(3) }
    }
    y.save(&path).map_err(e)
}
fn tools(y: &Suite) -> Value {
    match guard(|| y.get_tools()) {
        Err(_) => json!({"ok": false, "tools": [["panic", 0, "", ""]]}),
        Ok(Err(_)) => json!({"ok": false, "tools": []}),
        Ok(Ok(m)) => {
            let names: Vec<String> = y.context_names().iter().map(|x| x.to_string()).collect();
            json!({"ok": true, "tools": m.iter().map(|(k, t)| json!([if *k == t.name { k.clone() } else { format!("{k} is {}", t.name) }, names.iter().position(|n| *n == t.context_name).map(|i| i + 1).unwrap_or(0), t.original_name, t.package])).collect::<Vec<_>>()})
        }
    }
}
fn view(path: &Path) -> Value {
    let none = json!({"mode": "", "desc": [], "ctxs": []});
    match guard(|| Suite::load(path)) {
        Err(_) => json!({"st": "panic", "suite": none, "table": {"ok": false, "tools": []}}),
        Ok(Err(rez_next_suites::SuiteError::SuiteNotFound(_))) => json!({"st": if path.join("suite.yaml").exists() { "bad" } else { "none" }, "suite": none, "table": {"ok": false, "tools": []}}),
        Ok(Err(_)) => json!({"st": "bad", "suite": none, "table": {"ok": false, "tools": []}}),
        Ok(Ok(y)) => json!({"st": "ok", "suite": {"mode": format!("{:?}", y.conflict_mode).to_lowercase(), "desc": y.description.iter().collect::<Vec<_>>(),
            "ctxs": y.contexts().iter().map(|c| json!({"n": c.name, "reqs": c.requests, "alias": c.tool_aliases.iter().map(|(a, t)| json!([a, t])).collect::<Vec<_>>(), "hidden": c.hidden_tools,
                "prefix": c.prefix.iter().collect::<Vec<_>>(), "prio": c.priority, "off": c.disabled})).collect::<Vec<_>>()}, "table": tools(&y)}),
    }
}
pub fn child(op: &Value) -> Value {
    if s(op, "op") == "view" { return view(Path::new(s(op, "path"))); }
    match guard(|| edit(op)) { Ok(Ok(())) => json!({"res": "ok"}), Ok(Err(_)) => json!({"res": "err"}), Err(_) => json!({"res": "panic"}) }
}
fn args(op: &Value) -> Value {
    let p = s(op, "path");
    let mut a = vec!["suites".to_string(), match s(op, "op") { "create" => "create", "add" => "add-context", "remove" => "remove-context", "alias" => "alias-tool", "hide" => "hide-tool", x => panic!("VH-TOOL-ERROR {x}") }.to_string(), p.to_string()];
    let n = s(op, "n").to_string();
    match s(op, "op") {
        "create" => { a.push(format!("--conflict-mode={}", s(op, "mode"))); if let Some(d) = strs(&op["desc"]).first() { a.push(format!("--description={d}")); } }
        "add" => { a.push(n); a.extend(strs(&op["reqs"])); if let Some(d) = strs(&op["prefix"]).first() { a.push(format!("--prefix={d}")); } if op["prio"] != json!(0) { a.push(format!("--priority={}", op["prio"])); } }
        "remove" => a.push(n),
        "alias" => { a.push(n); a.push(s(op, "alias").into()); a.push(s(op, "tool").into()); }
        _ => { a.push(n); a.push(s(op, "tool").into()); }
    }
    json!({"args": a})
}
/// the table the command line prints
fn table(base: &Path, path: &Path) -> Value {
    let c = crate::util::child("cli", &json!({"args": ["suites", "tools", path, "-v"]}), "off", 0, false, base, None);
    let out = s(&c.res, "out");
    if c.res["code"] != json!(0) { return json!({"ok": false, "tools": []}); }
    let mut l = vec![];
    for x in out.lines().skip_while(|x| !x.starts_with("----")).skip(1) {
        let mut w = x.split_whitespace();
        l.push(json!([w.next().unwrap_or(""), w.next().unwrap_or(""), w.collect::<Vec<_>>().join(" ")]));
    }
    json!({"ok": true, "tools": l})
}
pub fn run(case: &Value) -> Value {
    let base = fresh_dir();
    // the second of two search paths holds a suite of the same name
    let dirs = [base.join("p1"), base.join("p 2")];
    let rel = [("p1", "s1"), ("p1", "s2"), ("p 2", "s1")];
    let places: Vec<PathBuf> = rel.iter().map(|(a, b)| base.join(a).join(b)).collect();
    for d in &dirs { fs::create_dir_all(d.join("not a suite")).expect("VH-TOOL-ERROR mk"); fs::write(d.join("file"), "x").expect("VH-TOOL-ERROR write"); }
    let mut out = vec![];
    for st in case["steps"].as_array().unwrap() {
        let mut o = st.clone();
        let path = places[st["place"].as_u64().unwrap() as usize - 1].clone();
        let mut op = st.clone();
        op["path"] = json!(path);
        o["hit"] = json!(false);
        o["cli"] = json!([]);
        let cli = s(st, "ui") == "cli";
        let prep = if cli && s(st, "op") != "spoil" { args(&op) } else { op.clone() };
        if s(st, "op") == "spoil" {
            fs::create_dir_all(&path).expect("VH-TOOL-ERROR mk");
            fs::write(path.join("suite.yaml"), s(st, "text")).expect("VH-TOOL-ERROR write");
            o["res"] = json!("ok");
        } else if s(st, "how") == "with" {
            // stopped in the middle: what a reader sees meanwhile
            let inp = base.join("in.json");
            fs::write(&inp, prep.to_string()).expect("VH-TOOL-ERROR write");
            let log = base.join("stop.log");
            let mut c = if cli { let mut c = Command::new(std::env::var("VH_CLI").unwrap()); c.args(strs(&prep["args"])); c } else { let mut c = Command::new(std::env::current_exe().unwrap()); c.arg("--child").arg("suites"); c };
            let outp = base.join("out.json");
            let ch = c.stdin(fs::File::open(&inp).unwrap()).stdout(fs::File::create(&outp).unwrap()).stderr(Stdio::null())
                .env("LD_PRELOAD", std::env::var("VH_SHIM").unwrap()).env("VSHIM_MODE", "stop").env("VSHIM_AT", st["at"].to_string()).env("VSHIM_ROOT", &base).env("VSHIM_LOG", &log).spawn().expect("VH-TOOL-ERROR spawn");
            let pid = ch.id() as i32;
            let mut ws = 0;
            if unsafe { libc::waitpid(pid, &mut ws, libc::WUNTRACED) } != pid { panic!("VH-TOOL-ERROR waitpid"); }
            o["hit"] = json!(libc::WIFSTOPPED(ws));
            o["mid"] = json!(places.iter().map(|p| view(p)).collect::<Vec<_>>());
            if libc::WIFSTOPPED(ws) { unsafe { libc::kill(pid, libc::SIGCONT); } if unsafe { libc::waitpid(pid, &mut ws, 0) } != pid { panic!("VH-TOOL-ERROR waitpid"); } }
            let done = libc::WIFEXITED(ws);
            let code = libc::WEXITSTATUS(ws);
            let v: Value = serde_json::from_slice(&fs::read(&outp).unwrap()).unwrap_or(Value::Null);
            o["res"] = if !done || code == 101 { json!("panic") } else if cli { json!(if code == 0 { "ok" } else { "err" }) } else { v["res"].clone() };
        } else {
            let cut = s(st, "how") == "cut";
            let c = crate::util::child(if cli { "cli" } else { "suites" }, &prep, if cut { s(st, "mode2") } else { "off" }, st["at"].as_i64().unwrap_or(0), st["sticky"] == json!(1), &base, None);
            o["hit"] = json!(c.hit);
            o["res"] = if c.end == "crash" { json!("crash") } else if cli { match c.res["code"].as_i64() { Some(0) => json!("ok"), Some(101) | Some(-1) | None => json!("panic"), _ => json!("err") } } else { c.res["res"].clone() };
        }
        o["probe"] = json!(places.iter().map(|p| view(p)).collect::<Vec<_>>());
        // by name, in the order of the search paths
        let m = SuiteManager::with_paths(dirs.to_vec());
        o["named"] = json!(["s1", "s2", "s3"].iter().map(|n| match m.load_suite(n) {
            Ok(y) => places.iter().position(|p| Some(p) == y.path.as_ref()).map(|i| i as i64 + 1).unwrap_or(8),
            Err(rez_next_suites::SuiteError::SuiteNotFound(_)) => 0,
            Err(_) => 9,
        }).collect::<Vec<_>>());
        o["found"] = json!(m.find_suites().iter().map(|f| places.iter().position(|p| p == f).map(|i| i + 1).unwrap_or(0)).collect::<Vec<_>>());
        o["names"] = json!(m.list_suite_names());
        if st["show"] == json!(1) {
            o["cli"] = json!([table(&base, &path)]);
            let c = crate::util::child("cli", &json!({"args": ["suites", "--paths", format!("{}:{}", dirs[0].display(), dirs[1].display()), "list"]}), "off", 0, false, &base, None);
            o["listed"] = json!(s(&c.res, "out").lines().filter(|x| *x != "No suites found.").collect::<Vec<_>>());
        }
        out.push(o);
    }
    let _ = fs::remove_dir_all(&base);
    with_steps(case, out)
}
