use crate::util::*;
use rez_next_package::{PackageRequirement, Requirement};
use rez_next_version::Version;
use serde_json::{Value, json};

pub fn run(case: &Value) -> Value {
    let u: Vec<Version> = case["init"]["u"].as_array().unwrap().iter()
        .map(|t| Version::parse(&text(t)).expect("VH-TOOL-ERROR universe")).collect();
    let mut out = vec![];
    for st in case["steps"].as_array().unwrap() {
        let r = guard(|| {
            let mut o = st.clone();
            let t = text(&st["text"]);
            let has = |r: &Requirement| -> Value { Value::Array(u.iter().map(|v| json!(r.is_satisfied_by(v) as i64)).collect()) };
            let phas = |r: &PackageRequirement| -> Value { Value::Array(u.iter().map(|v| json!(r.satisfied_by(v) as i64)).collect()) };
            match s(st, "op") {
                "req" => {
                    match t.parse::<Requirement>() {
                        Err(_) => { o["ok"] = json!(0); return o; }
                        Ok(r) => {
                            o["ok"] = json!(1);
                            o["name"] = json!(r.name);
                            o["ns"] = json!(r.namespace.clone().unwrap_or_default());
                            o["weak"] = json!(r.weak);
                            o["conflict"] = json!(r.conflict);
                            o["has"] = has(&r);
                            let j = serde_json::to_string(&r).unwrap();
                            o["jhas"] = serde_json::from_str::<Requirement>(&j).map(|x| has(&x)).unwrap_or(json!([]));
                            match r.to_string().parse::<Requirement>() {
                                Ok(q) => {
                                    o["rok"] = json!(1);
                                    o["rname"] = json!(q.name);
                                    o["rns"] = json!(q.namespace.clone().unwrap_or_default());
                                    o["rweak"] = json!(q.weak);
                                    o["rconflict"] = json!(q.conflict);
                                    o["rhas"] = has(&q);
                                }
                                Err(_) => { o["rok"] = json!(0); o["rhas"] = json!([]); o["rname"] = json!(""); o["rns"] = json!(""); o["rweak"] = json!(false); o["rconflict"] = json!(false); }
                            }
                        }
                    }
                    if st["pkg"] == json!(1) {
                        match PackageRequirement::parse(&t) {
                            Ok(p) => {
                                o["pok"] = json!(1);
                                o["pname"] = json!(p.name);
                                o["pweak"] = json!(p.weak);
                                o["pconflict"] = json!(p.conflict);
                                o["phas"] = phas(&p);
                                match PackageRequirement::parse(&p.to_string()) {
                                    Ok(q) if q.name == p.name && q.weak == p.weak && q.conflict == p.conflict => { o["prok"] = json!(1); o["prhas"] = phas(&q); }
                                    _ => { o["prok"] = json!(0); o["prhas"] = json!([]); }
                                }
                            }
                            Err(_) => { o["pok"] = json!(0); }
                        }
                    }
                }
                "cond" => match t.parse::<Requirement>() {
                    Err(_) => { o["ok"] = json!(0); }
                    Ok(r) => {
                        o["ok"] = json!(1);
                        let env = st["e"]["env"].as_array().unwrap().iter().map(|kv| (kv[0].as_str().unwrap().to_string(), kv[1].as_str().unwrap().to_string())).collect();
                        let arch = s(&st["e"], "arch");
                        let arch = if arch.is_empty() { None } else { Some(arch) };
                        let plat = s(&st["e"], "platform");
                        o["plat"] = json!(r.is_platform_satisfied(plat, arch) as i64);
                        o["env"] = json!(r.is_env_satisfied(&env) as i64);
                        match r.to_string().parse::<Requirement>() {
                            Ok(q) => { o["rplat"] = json!(q.is_platform_satisfied(plat, arch) as i64); o["renv"] = json!(q.is_env_satisfied(&env) as i64); }
                            Err(_) => { o["rplat"] = json!(9); o["renv"] = json!(9); }
                        }
                    }
                },
                _ => { eprintln!("VH-TOOL-ERROR op"); std::process::exit(3) }
            }
            o
        });
        out.push(r.unwrap_or_else(|e| json!({"op":"panic","panic":e,"was":st})));
    }
    with_steps(case, out)
}
