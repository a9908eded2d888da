//! The configuration a process sees: the layered rez_next_config::Config and the main RezCoreConfig.
use crate::util::*;
use serde_json::{Value, json};
use std::fs;
use std::path::Path;

fn leaves(v: &Value, path: Vec<String>, out: &mut Vec<Value>) {
    match v {
        Value::Object(m) if !m.is_empty() => for (k, x) in m { let mut p = path.clone(); p.push(k.clone()); leaves(x, p, out) },
        _ => out.push(json!([path, v.to_string()])),
    }
}
pub fn child(op: &Value) -> Value {
    match rez_next_config::Config::load() {
        Err(e) => json!({"err": [e.to_string()]}),
        Ok(c) => {
            let mut l = vec![];
            leaves(c.data(), vec![], &mut l);
            if l == vec![json!([[], "{}"])] { l.clear(); }
            let ans: Vec<Value> = op["keys"].as_array().unwrap().iter().map(|k| {
                let name = k.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(".");
                let mut x = vec![];
                if let Some(v) = c.get(&name) { leaves(v, vec![], &mut x); }
                json!({"key": k, "has": c.contains_key(&name), "tree": x, "str": c.get_string(&name).map(|s| vec![json!(s).to_string()]).unwrap_or_default(),
                       "int": c.get_i64(&name).map(|s| vec![s.to_string()]).unwrap_or_default(), "bool": c.get_bool(&name).map(|s| vec![s.to_string()]).unwrap_or_default(),
                       "arr": c.get_array(&name).map(|s| vec![json!(s).to_string()]).unwrap_or_default()})
            }).collect();
            json!({"err": [], "got": l, "ans": ans, "sources": c.sources().iter().map(|s| format!("{s:?}")).collect::<Vec<_>>()})
        }
    }
}
fn put(base: &Path, rel: &str, kind: &str, text: &Value) {
    let p = base.join(rel);
    fs::create_dir_all(p.parent().unwrap()).expect("VH-TOOL-ERROR mk");
    let t: String = text.as_str().unwrap_or("").replace('@', &base.to_string_lossy());
    match kind {
        "dir" => fs::create_dir_all(&p).expect("VH-TOOL-ERROR mk"),
        "bytes" => fs::write(&p, [t.as_bytes(), b"\xff\xfe"].concat()).expect("VH-TOOL-ERROR write"),
        "locked" => { fs::write(&p, t).expect("VH-TOOL-ERROR write"); fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0)).expect("VH-TOOL-ERROR chmod") }
        _ => fs::write(&p, t).expect("VH-TOOL-ERROR write"),
    }
}
fn field(v: &Value, base: &str) -> Value {
    let c = |x: &str| codes(&x.replace(base, "@"));
    match v {
        Value::String(s) => json!({"t": "s", "l": [c(s)]}),
        Value::Array(a) => json!({"t": "a", "l": a.iter().map(|x| x.as_str().map(c).unwrap_or(c(&x.to_string()))).collect::<Vec<_>>()}),
        x => json!({"t": "o", "l": [c(&x.to_string())]}),
    }
}
fn flat(v: &Value, pre: &str, base: &str, out: &mut Vec<Value>) {
    match v {
        Value::Object(m) => for (k, x) in m { flat(x, &if pre.is_empty() { k.clone() } else { format!("{pre}.{k}") }, base, out) },
        x => out.push(json!({"k": pre, "v": field(x, base)})),
    }
}
pub fn run(case: &Value) -> Value {
    let mut out = vec![];
    for st in case["steps"].as_array().unwrap() {
        let mut o = st.clone();
        let base = fresh_dir();
        let bs = base.to_string_lossy().into_owned();
        let res = guard(|| {
            for d in ["home", "cwd"] { fs::create_dir_all(base.join(d)).expect("VH-TOOL-ERROR mk"); }
            for f in st["files"].as_array().unwrap() { put(&base, s(f, "rel"), s(f, "kind"), &f["text"]); }
            let mut env = json!({"HOME": base.join("home"), "TMPDIR": &bs, "XDG_CONFIG_HOME": "", "USERPROFILE": ""});
            env.as_object_mut().unwrap().remove("USERPROFILE");
            for e in st["env"].as_array().unwrap() { env[s(e, "name")] = json!(text(&e["val"]).replace('@', &bs)); }
            let cwd = base.join("cwd");
            match s(st, "op") {
                "layers" => {
                    let c = crate::util::child("config", &json!({"keys": st["keys"], "_env": env, "_cwd": cwd, "_junk": st["junk"]}), "off", 0, false, &base, None);
                    if c.res.is_null() { panic!("child ended with {}", c.end); }
                    for k in ["err", "got", "ans", "sources"] { if !c.res[k].is_null() { o[k] = c.res[k].clone(); } }
                    o["err"] = json!(!o["err"].as_array().unwrap().is_empty());
                    if o["got"].is_null() { o["got"] = json!([]); o["ans"] = json!([]); o["sources"] = json!([]); }
                }
                "main" => {
                    let cli = |a: &[&str]| { let c = crate::util::child("cli", &json!({"args": a, "cwd": cwd, "env": env}), "off", 0, false, &base, None);
                        if c.res["err"].as_str().unwrap_or("").contains("panicked at") { panic!("{}", c.res["err"]); } (c.res["code"].as_i64().unwrap(), c.res["out"].as_str().unwrap().to_string()) };
                    let (code, text) = cli(&["config", "--json"]);
                    o["code"] = json!(code);
                    let mut l = vec![];
                    if let Ok(v) = serde_json::from_str::<Value>(&text) { flat(&v, "", &bs, &mut l); }
                    o["got"] = json!(l);
                    let src = |a: &str| json!(cli(&["config", a]).1.lines().map(|x| codes(&x.replace(&bs, "@"))).collect::<Vec<_>>());
                    o["search"] = src("--search-list");
                    o["source"] = src("--source-list");
                    o["one"] = json!(st["fields"].as_array().unwrap().iter().map(|f| {
                        let n = f.as_str().unwrap();
                        let (code, text) = cli(&["config", n, "--json"]);
                        let mut l = vec![];
                        if let Ok(v) = serde_json::from_str::<Value>(&text) { flat(&v, n, &bs, &mut l); }
                        json!({"field": n, "code": code, "got": l})
                    }).collect::<Vec<_>>());
                }
                // every command looks for packages in the configured places
                "where" => {
                    o["ran"] = json!(st["cmds"].as_array().unwrap().iter().map(|a| {
                        let args: Vec<String> = a["args"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().replace('@', &bs)).collect();
                        let c = crate::util::child("cli", &json!({"args": args, "cwd": cwd, "env": env}), "off", 0, false, &base, None);
                        let (out, err) = (c.res["out"].as_str().unwrap(), c.res["err"].as_str().unwrap());
                        if err.contains("panicked at") { panic!("{err}"); }
                        // the version directories of the package that the command mentions
                        json!({"cmd": a["cmd"], "code": c.res["code"], "saw": (1..=4).filter(|n| out.contains(&format!("7.{n}.9")) || out.contains(&format!("dep{n}"))).collect::<Vec<_>>()})
                    }).collect::<Vec<_>>());
                }
                x => panic!("VH-TOOL-ERROR {x}"),
            }
        });
        let _ = fs::remove_dir_all(&base);
        for k in ["files"] { o.as_object_mut().unwrap().remove(k); }
        if let Err(e) = res { out.push(json!({"op": "panic", "what": e, "step": st})); break; }
        out.push(o);
    }
    with_steps(case, out)
}
