use crate::util::*;
use rez_next_version::Version;
use serde_json::{Value, json};
use std::hash::{Hash, Hasher};

fn h(v: &Version) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}

/// init.u: texts.  Observes parsing of each and the full comparison matrix.
pub fn run(case: &Value) -> Value {
    let u: Vec<String> = case["init"]["u"].as_array().unwrap().iter().map(text).collect();
    let vs: Vec<Option<Version>> = u.iter().map(|t| guard(|| Version::parse(t).ok()).unwrap_or(None)).collect();
    let mut steps = vec![];
    let mut mat = vec![];
    for (i, v) in vs.iter().enumerate() {
        // the same text through the other entry points must agree
        let again = guard(|| Version::new(Some(&u[i])).ok()).unwrap_or(None);
        let de = guard(|| serde_json::from_value::<Version>(json!(u[i])).ok()).unwrap_or(None);
        let agree = again.is_some() == v.is_some() && de.is_some() == v.is_some()
            && again.as_ref().map(|x| x.as_str().to_string()) == v.as_ref().map(|x| x.as_str().to_string())
            && de.as_ref().map(|x| serde_json::to_value(x).unwrap()) == v.as_ref().map(|x| json!(x.as_str()));
        steps.push(json!({"op":"ver","i":i+1,"ok": v.is_some() && agree || (v.is_none() && !agree),
            "text": v.as_ref().map(|x| codes(&x.to_string())).unwrap_or(json!([]))}));
        let mut c = vec![];
        let mut e = vec![];
        let mut hh = vec![];
        for w in &vs {
            match (v, w) {
                (Some(v), Some(w)) => {
                    let r = guard(|| {
                        let o = v.cmp(w) as i8 as i64;
                        let ops = v.partial_cmp(w).map(|x| x as i8 as i64) == Some(o)
                            && (v < w) == (o < 0) && (v <= w) == (o <= 0) && (v > w) == (o > 0) && (v >= w) == (o >= 0)
                            && v.clone().cmp(w) as i8 as i64 == o;
                        (if ops { o } else { 9 }, (v == w && !(v != w)) as i64, (h(v) == h(w)) as i64)
                    }).unwrap_or((9, 9, 9));
                    c.push(r.0);
                    e.push(r.1);
                    hh.push(r.2);
                }
                _ => { c.push(8); e.push(8); hh.push(8); }
            }
        }
        if v.is_some() {
            steps.push(json!({"op":"row","i":i+1,"c":c,"e":e,"h":hh}));
        }
        mat.push(c);
    }
    steps.push(json!({"op":"mat","c":mat}));
    with_steps(case, steps)
}
