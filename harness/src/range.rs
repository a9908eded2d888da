use crate::util::*;
use rez_next_version::{Version, VersionRange};
use serde_json::{Value, json};

pub fn run(case: &Value) -> Value {
    let u: Vec<Version> = case["init"]["u"].as_array().unwrap().iter()
        .map(|t| Version::parse(&text(t)).expect("VH-TOOL-ERROR universe")).collect();
    let has = |r: &VersionRange| -> Value { Value::Array(u.iter().map(|v| json!(r.contains(v) as i64)).collect()) };
    let mut regs: Vec<VersionRange> = vec![];
    let mut out = vec![];
    for st in case["steps"].as_array().unwrap() {
        let mut o = st.clone();
        let a = st["a"].as_u64().map(|x| x as usize - 1);
        let b = st["b"].as_u64().map(|x| x as usize - 1);
        let op = s(st, "op").to_string();
        let r = guard(|| {
            let mut o = st.clone();
            let mut push: Option<VersionRange> = None;
            match op.as_str() {
                "parse" => match VersionRange::parse(&text(&st["text"])) {
                    Ok(r) => { o["ok"] = json!(1); o["has"] = has(&r); push = Some(r); }
                    Err(_) => { o["ok"] = json!(0); o["has"] = json!([]); push = Some(VersionRange::none()); }
                },
                "union" => { let r = regs[a.unwrap()].union(&regs[b.unwrap()]); o["has"] = has(&r); push = Some(r); }
                "intersect" | "subtract" => {
                    let r = if op == "intersect" { regs[a.unwrap()].intersect(&regs[b.unwrap()]) } else { regs[a.unwrap()].subtract(&regs[b.unwrap()]) };
                    o["some"] = json!(r.is_some() as i64);
                    let r = r.unwrap_or_else(VersionRange::none);
                    o["has"] = has(&r);
                    push = Some(r);
                }
                "reload" => {
                    let t = serde_json::to_string(&regs[a.unwrap()]).unwrap();
                    match serde_json::from_str::<VersionRange>(&t) {
                        Ok(r) => { o["ok"] = json!(1); o["has"] = has(&r); }
                        Err(_) => { o["ok"] = json!(0); o["has"] = json!([]); }
                    }
                }
                "query" => {
                    let (x, y) = (&regs[a.unwrap()], &regs[b.unwrap()]);
                    o["intersects"] = json!(x.intersects(y) as i64);
                    o["subset"] = json!(x.is_subset_of(y) as i64);
                    o["superset"] = json!(x.is_superset_of(y) as i64);
                    o["rsubset"] = json!(y.is_subset_of(x) as i64);
                    o["anya"] = json!(x.is_any() as i64);
                    o["emptya"] = json!(x.is_empty() as i64);
                }
                _ => { eprintln!("VH-TOOL-ERROR op"); std::process::exit(3) }
            }
            (o, push)
        });
        match r {
            Ok((v, p)) => { o = v; if let Some(p) = p { regs.push(p); } }
            Err(e) => { o["op"] = json!("panic"); o["panic"] = json!(e); regs.push(VersionRange::none()); }
        }
        out.push(o);
    }
    with_steps(case, out)
}
