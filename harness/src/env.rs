//! The environment of a context: generated by the library, seen by processes run in it, given by the command line.
use crate::util::*;
use rez_next_context::{ContextConfig, ContextExecutor, EnvironmentManager, ExecutionConfig, PathStrategy, ResolvedContext, ShellType};
use rez_next_package::Package;
use rez_next_package::serialization::PackageSerializer;
use rez_next_rex::{RexEnvironment, RexExecutor, ShellType as RexShell, generate_shell_script};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::process::{Command, Stdio};

fn entries(v: &str) -> Value { if v.is_empty() { json!([]) } else { json!(v.split(':').collect::<Vec<_>>()) } }
fn pairs<'a>(m: impl IntoIterator<Item = (&'a String, &'a String)>) -> Value {
    let mut v: Vec<_> = m.into_iter().collect();
    v.sort();
    Value::Array(v.into_iter().map(|(k, x)| json!([k, entries(x)])).collect())
}
fn plain<'a>(m: impl IntoIterator<Item = (&'a String, &'a String)>) -> Value {
    let mut v: Vec<_> = m.into_iter().collect();
    v.sort();
    Value::Array(v.into_iter().map(|(k, x)| json!([k, x])).collect())
}
fn map(v: &Value) -> HashMap<String, String> {
    v.as_array().map(|a| a.iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(":"))).collect()).unwrap_or_default()
}
fn strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() }
fn package(p: &Value) -> Result<Package, String> {
    let root = Path::new(p["refs"]["root"].as_str().unwrap());
    let file = root.join("package.py");
    if p["py"].is_string() {
        let mut k = PackageSerializer::load_from_file(&file).map_err(|e| e.to_string())?;
        k.filepath = Some(file.to_string_lossy().into_owned());
        return Ok(k);
    }
    let mut k = Package::new(s(p, "name").to_string());
    if !s(p, "ver").is_empty() { k.version = Some(rez_next_version::Version::parse(s(p, "ver")).map_err(|e| e.to_string())?); }
    let t = |x: &str| p[x].as_str().map(String::from);
    k.pre_commands = t("pretext");
    k.commands = t("cmdtext");
    k.post_commands = t("posttext");
    k.tools = strs(&p["tools"]);
    k.filepath = Some(file.to_string_lossy().into_owned());
    Ok(k)
}
pub fn stage(init: &Value) {
    for p in init["pkgs"].as_array().unwrap() {
        let root = Path::new(p["refs"]["root"].as_str().unwrap());
        fs::create_dir_all(root.join("bin")).expect("VH-TOOL-ERROR mk");
        if let Some(py) = p["py"].as_str() { fs::write(root.join("package.py"), py).expect("VH-TOOL-ERROR write"); }
        for t in strs(&p["files"]) {
            let f = root.join(t);
            fs::write(&f, "#!/bin/sh\n").expect("VH-TOOL-ERROR write");
            fs::set_permissions(&f, fs::Permissions::from_mode(0o755)).expect("VH-TOOL-ERROR chmod");
        }
    }
}
fn zero(out: &[u8]) -> HashMap<String, String> {
    String::from_utf8_lossy(out).split('\0').filter_map(|l| l.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
fn rexenv(e: &RexEnvironment) -> Value {
    json!({"vars": pairs(&e.vars), "aliases": plain(&e.aliases), "cmds": e.startup_commands, "srcs": e.sourced_scripts, "infos": e.info_messages,
        "stopped": e.stopped, "msg": e.stop_message.clone().unwrap_or_default()})
}
fn merge(mut a: Value, b: Value) -> Value { for (k, v) in b.as_object().unwrap() { a[k] = v.clone(); } a }
fn job(init: &Value, j: &Value, rt: &tokio::runtime::Runtime, dir: &Path) -> Value {
    let base = map(&init["base"]);
    let cfg = ContextConfig {
        inherit_parent_env: false, shell_type: ShellType::Bash, working_directory: None,
        additional_env_vars: map(&init["add"]), unset_vars: strs(&init["unset"]),
        path_strategy: match s(init, "strat") { "append" => PathStrategy::Append, "replace" => PathStrategy::Replace, "no" => PathStrategy::NoModify, _ => PathStrategy::Prepend },
    };
    let mgr = EnvironmentManager::with_base_environment(cfg.clone(), base.clone());
    let packs: Result<Vec<Package>, String> = init["pkgs"].as_array().unwrap().iter().map(package).collect();
    let kind = s(j, "kind");
    if kind != "names" && kind != "cli" && packs.is_err() {
        return json!({"op": if kind == "rex" { "rex" } else { "gen" }, "ok": 0, "order": [], "why": packs.unwrap_err()});
    }
    match kind {
        "gen" => {
            let packs = packs.unwrap();
            match rt.block_on(mgr.generate_rex_environment(&packs)) {
                Err(e) => json!({"op": "gen", "ok": 0, "order": [], "why": e.to_string()}),
                Ok(e) => {
                    let first = rexenv(&e);
                    let mut same = true;
                    for _ in 0..3 { same &= rt.block_on(mgr.generate_rex_environment(&packs)).is_ok_and(|x| rexenv(&x) == first); }
                    let d = mgr.get_env_diff(&e.vars);
                    let mut ch: Vec<_> = d.modified.iter().map(|(k, (a, b))| (k.clone(), json!([k, [entries(a), entries(b)]]))).collect();
                    ch.sort_by(|a, b| a.0.cmp(&b.0));
                    merge(json!({"op": "gen", "ok": 1, "order": [], "same": same, "added": pairs(&d.added), "changed": ch.into_iter().map(|x| x.1).collect::<Vec<_>>(), "removed": d.removed}), first)
                }
            }
        }
        "rex" => {
            let k = &packs.unwrap()[0];
            let mut x = RexExecutor::new();
            match x.execute_commands(k.commands.as_deref().unwrap_or(""), &k.name, k.root().as_deref(), k.version.as_ref().map(|v| v.as_str())) {
                Err(e) => json!({"op": "rex", "ok": 0, "order": [], "why": e.to_string()}),
                Ok(e) => merge(json!({"op": "rex", "ok": 1, "order": []}), rexenv(&e)),
            }
        }
        "names" => {
            let mut out = vec![];
            for _ in 0..4 {
                let mut x = RexExecutor::new();
                for p in j["vars"].as_array().unwrap() { x.set_context_var(p[0].as_str().unwrap(), p[1].as_str().unwrap()); }
                let e = x.execute_commands(&format!("setenv('OUT', '{}')", s(j, "text")), "pkg", None, None);
                out.push(e.ok().and_then(|e| e.vars.get("OUT").cloned()).unwrap_or_default());
            }
            out.dedup();
            json!({"op": "names", "text": s(j, "text"), "vars": j["vars"], "out": out, "expect": [s(j, "expect")]})
        }
        "run" => {
            let packs = packs.unwrap();
            let mut ctx = ResolvedContext::from_requirements(vec![]);
            ctx.resolved_packages = packs;
            ctx.config = cfg;
            let env = rt.block_on(mgr.generate_rex_environment(&ctx.resolved_packages));
            let extra = map(&j["extra"]);
            let inherit = j["inherit"] == json!(true);
            let mut rec = json!({"op": "run", "how": j["how"], "inherit": inherit, "extra": j["extra"], "order": [], "wantcode": j["code"], "parent": pairs(&std::env::vars().collect::<HashMap<_, _>>()), "mask": ["PWD", "OLDPWD", "SHLVL", "_"], "ok": 0, "vars": [], "code": 0});
            let Ok(env) = env else { return rec };
            ctx.environment_vars = env.vars;
            let x = ContextExecutor::with_config(ctx, ExecutionConfig { shell_type: ShellType::Bash, working_directory: Some(dir.to_path_buf()), inherit_parent_env: inherit, additional_env_vars: extra, timeout_seconds: 60, capture_output: true });
            let code = j["code"].as_i64().unwrap();
            let text = format!("/usr/bin/env -0; exit {code}");
            let got = rt.block_on(async {
                match s(j, "how") {
                    "exec" => x.execute(&text).await.map(|r| (r.exit_code, r.stdout)),
                    "batch" => x.execute_batch(&["true".to_string(), text.clone()]).await.map(|r| (r[1].exit_code, r[1].stdout.clone())),
                    "script" => { let f = dir.join("script.sh"); fs::write(&f, &text).expect("VH-TOOL-ERROR write"); x.execute_script(&f).await.map(|r| (r.exit_code, r.stdout)) }
                    "spawn" => match x.spawn_process("/bin/sh", &["-c".to_string(), text.clone()]).await { Ok(p) => p.wait().await.map(|r| (r.exit_code, r.stdout)), Err(e) => Err(e) },
                    _ => { let f = dir.join("bg.out"); let _ = fs::remove_file(&f);
                        let r = x.execute_background(&format!("/usr/bin/env -0 > '{0}.t'; /bin/mv '{0}.t' '{0}'", f.display())).await;
                        for _ in 0..400 { if f.exists() { break } tokio::time::sleep(std::time::Duration::from_millis(10)).await; }
                        r.map(|_| (code as i32, fs::read_to_string(&f).unwrap_or_default())) }
                }
            });
            if let Ok((c, out)) = got { rec["ok"] = json!(1); rec["code"] = json!(c); rec["vars"] = pairs(&zero(out.as_bytes())); }
            rec
        }
        "cli" => {
            let cli = std::env::var("VH_CLI").expect("VH-TOOL-ERROR cli");
            let code = j["code"].as_i64().unwrap();
            let mut c = Command::new(&cli);
            c.arg("env").arg("--paths").arg(dir.join("repo"));
            c.args(strs(&j["request"]));
            let mut mask: Vec<&str> = vec!["REZ_USED_REQUEST", "REZ_USED_RESOLVE", "REZ_USED_PACKAGES_NAMES"];
            let want = match s(j, "how") {
                "json" => { c.args(["--print-env", "--format", "json"]); 0 }
                "shell" => { c.args(["--print-env"]); 0 }
                "script" => { c.args(["--print-script", "--shell", "bash"]); 0 }
                "c" => { c.args(["-q", "-c", &format!("/usr/bin/env -0; exit {code}")]); code }
                _ => { c.args(["-q", "--", "/bin/sh", "-c", &format!("/usr/bin/env -0; exit {code}")]); code }
            };
            c.env_clear().envs(&base).current_dir(dir).stdin(Stdio::null());
            let o = c.output().expect("VH-TOOL-ERROR cli");
            if s(j, "how") != "json" { mask.extend(["PWD", "OLDPWD", "SHLVL", "_", "REZ_RXT_FILE", "REZ_CONTEXT_FILE"]); }
            let vars: HashMap<String, String> = match s(j, "how") {
                "json" => serde_json::from_slice::<Value>(&o.stdout).ok().and_then(|v| v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect())).unwrap_or_default(),
                "shell" | "script" => {
                    let f = dir.join("act.sh");
                    fs::write(&f, &o.stdout).expect("VH-TOOL-ERROR write");
                    zero(&bash(&f, dir, &["PATH=/usr/bin:/bin"]).0)
                }
                _ => zero(&o.stdout),
            };
            let order: Vec<String> = vars.get("REZ_USED_RESOLVE").map(|x| x.split(' ').map(String::from).collect()).unwrap_or_default();
            let known: Vec<String> = init["pkgs"].as_array().unwrap().iter().map(|p| s(p, "spec").to_string()).collect();
            let valid = order.len() == known.len() && order.iter().all(|x| known.contains(x));
            json!({"op": "cli", "how": j["how"], "code": o.status.code().unwrap_or(-1), "wantcode": want, "mask": mask, "order": if valid { order.clone() } else { vec![] },
                "exedir": Path::new(&cli).parent().unwrap(), "vars": pairs(&vars), "err": String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>(),
                "rq": [vars.get("REZ_USED_REQUEST").cloned().unwrap_or_default(), if valid { "all".to_string() } else { order.join(" ") }, vars.get("REZ_USED_PACKAGES_NAMES").cloned().unwrap_or_default()],
                "wantrq": [strs(&j["request"]).join(" "), "all", order.join(" ")]})
        }
        k => { eprintln!("VH-TOOL-ERROR job {k}"); std::process::exit(3) }
    }
}
/// sources a script in a fresh bash and dumps its environment; (stdout, stderr)
fn bash(f: &Path, dir: &Path, env: &[&str]) -> (Vec<u8>, String) {
    let mut c = Command::new("/bin/bash");
    c.args(["--noprofile", "--norc", "-c", "source \"$0\" >/dev/null; /usr/bin/env -0"]).arg(f).env_clear().current_dir(dir).stdin(Stdio::null());
    for e in env { let (a, b) = e.split_once('=').unwrap(); c.env(a, b); }
    let o = c.output().expect("VH-TOOL-ERROR bash");
    (o.stdout, String::from_utf8_lossy(&o.stderr).into_owned())
}
pub fn run(case: &Value) -> Value {
    let dir = fresh_dir();
    let t = case.to_string().replace("@W@", dir.to_str().unwrap());
    let case: Value = serde_json::from_str(&t).expect("VH-TOOL-ERROR json");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("VH-TOOL-ERROR rt");
    stage(&case["init"]);
    let steps = case["jobs"].as_array().unwrap().iter().map(|j| guard(|| job(&case["init"], j, &rt, &dir)).unwrap_or_else(|p| json!({"op": "panic", "order": [], "why": p}))).collect();
    let _ = fs::remove_dir_all(&dir);
    let mut r = with_steps(&case, steps);
    r.as_object_mut().unwrap().remove("jobs");
    r
}

/// Shell scripts: what each generator writes for an environment (as character codes), and what bash makes of it
pub fn script(case: &Value) -> Value {
    let dir = fresh_dir();
    let mut steps = vec![];
    for st in case["steps"].as_array().unwrap() {
        let kind = s(st, "gen");
        let vars: Vec<(String, String)> = st["vars"].as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), text(&p[1]))).collect();
        let als: Vec<(String, String)> = st["aliases"].as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), text(&p[1]))).collect();
        let sh = s(st, "shell");
        let out = guard(|| {
            if kind == "rex" {
                let mut e = RexEnvironment::new();
                e.vars = vars.iter().cloned().collect();
                e.aliases = als.iter().cloned().collect();
                generate_shell_script(&e, &RexShell::parse(sh).expect("VH-TOOL-ERROR shell"))
            } else {
                let shell_type = match sh { "bash" => ShellType::Bash, "zsh" => ShellType::Zsh, "fish" => ShellType::Fish, "cmd" => ShellType::Cmd, _ => ShellType::PowerShell };
                let m = EnvironmentManager::with_base_environment(ContextConfig { shell_type, ..Default::default() }, HashMap::new());
                m.generate_shell_script(&vars.iter().cloned().collect()).unwrap_or_else(|e| format!("error {e}"))
            }
        });
        let mut r = st.clone();
        match out {
            Err(p) => r = json!({"op": "panic", "why": p}),
            Ok(t) => {
                r["script"] = codes(&t);
                if sh == "bash" || sh == "zsh" {
                    let f = dir.join("s.sh");
                    fs::write(&f, &t).expect("VH-TOOL-ERROR write");
                    let _ = fs::remove_file(dir.join("pwned"));
                    let mut c = Command::new("/bin/bash");
                    c.args(["--noprofile", "--norc", "-c", "source \"$0\"; /usr/bin/env -0; shopt -s expand_aliases; for a in \"${!BASH_ALIASES[@]}\"; do printf 'ALIAS %s=%s\\0' \"$a\" \"${BASH_ALIASES[$a]}\"; done"])
                        .arg(&f).env_clear().current_dir(&dir).stdin(Stdio::null());
                    let o = c.output().expect("VH-TOOL-ERROR bash");
                    let all = zero(&o.stdout);
                    let get = |k: &str| all.get(k).map(|v| codes(v)).unwrap_or(json!([0]));
                    r["seen"] = Value::Array(vars.iter().map(|(k, _)| json!([k, get(k)])).collect());
                    r["seenal"] = Value::Array(als.iter().map(|(k, _)| json!([k, get(&format!("ALIAS {k}"))])).collect());
                    r["ran"] = json!(dir.join("pwned").exists() || !o.stderr.is_empty());
                } else { r["seen"] = json!([]); r["seenal"] = json!([]); r["ran"] = json!(false); }
            }
        }
        steps.push(r);
    }
    let _ = fs::remove_dir_all(&dir);
    with_steps(case, steps)
}
