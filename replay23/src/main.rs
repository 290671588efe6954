//! replay23 C23 TIER SEED SECONDS OUTFILE: types deriving serde's traits and JsonSchema, their values and variations of their JSON
#![allow(dead_code, unused)]
#[path = "../../replay/src/ctx.rs"]
mod ctx;
#[path = "../../replay/src/valid.rs"]
mod valid;
mod types;
use ctx::*;
use schemars::{generate::SchemaSettings, JsonSchema};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;

fn schema<T: JsonSchema>(ser: bool) -> Value {
    let s = SchemaSettings::draft2020_12();
    let s = if ser { s.for_serialize() } else { s.for_deserialize() };
    s.into_generator().into_root_schema_for::<T>().to_value()
}
fn strings(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::String(s) => {
            out.insert(s.clone());
        }
        Value::Array(a) => a.iter().for_each(|x| strings(x, out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| {
            out.insert(k.clone());
            strings(x, out)
        }),
        _ => {}
    }
}
/// the members a schema names, at any depth
fn names(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| names(x, out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| {
            match (k.as_str(), x) {
                ("properties", Value::Object(p)) => out.extend(p.keys().cloned()),
                ("const", Value::String(s)) => {
                    out.insert(s.clone());
                }
                ("enum", x) => strings(x, out),
                _ => {}
            }
            names(x, out)
        }),
        _ => {}
    }
}
fn objects<'a>(v: &'a mut Value, out: &mut Vec<*mut Value>) {
    out.push(v as *mut _);
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| objects(x, out)),
        Value::Object(m) => m.iter_mut().for_each(|(_, x)| objects(x, out)),
        _ => {}
    }
}
/// object schemas that say nothing about further members allow none
fn close(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(close),
        Value::Object(m) => {
            m.iter_mut().for_each(|(k, x)| if k != "const" && k != "enum" && k != "default" { close(x) });
            if m.get("type") == Some(&json!("object")) && !["additionalProperties", "unevaluatedProperties", "allOf", "anyOf", "oneOf", "$ref"].iter().any(|k| m.contains_key(*k)) {
                m.insert("additionalProperties".into(), json!(false));
            }
        }
        _ => {}
    }
}
fn mutate(rng: &mut Rng, v: &mut Value, pool: &[String], vals: &[Value]) {
    let mut all = vec![];
    objects(v, &mut all);
    let p = all[rng.below(all.len())];
    // one of the values inside v, alone borrowed
    let x = unsafe { &mut *p };
    match x {
        Value::Object(m) if !m.is_empty() || rng.chance(1, 2) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            match rng.below(4) {
                0 if !ks.is_empty() => {
                    m.remove(rng.pick(&ks));
                }
                1 if !ks.is_empty() => {
                    let x = m.remove(rng.pick(&ks)).unwrap();
                    m.insert(rng.pick(pool).clone(), x);
                }
                2 if !ks.is_empty() => {
                    let x = rng.pick(vals).clone();
                    m.insert(rng.pick(&ks).clone(), x);
                }
                _ => {
                    let x = rng.pick(vals).clone();
                    m.insert(rng.pick(pool).clone(), x);
                }
            }
        }
        Value::Array(a) if rng.chance(2, 3) => match rng.below(3) {
            0 => {
                a.pop();
            }
            1 => a.push(rng.pick(vals).clone()),
            _ => {
                let n = a.len();
                if n > 1 {
                    a.swap(0, n - 1)
                }
            }
        },
        Value::String(s) if rng.chance(1, 2) => *s = rng.pick(pool).clone(),
        x => *x = rng.pick(vals).clone(),
    }
}
pub struct Rules<'a> {
    /// serde's deserializer and the schema want the same members
    pub de: bool,
    /// serde's own deserializer does not read what its serializer writes
    pub ser_only: bool,
    /// every member the serialized form has is always there, but for these
    pub ser: Option<&'a [&'a str]>,
}
pub fn case<T: Serialize + DeserializeOwned + JsonSchema>(c: &mut Ctx, name: &str, r: Rules, values: Vec<T>, more: Vec<Value>, n: usize) {
    let (ss, ds) = (schema::<T>(true), schema::<T>(false));
    let (vs, vd) = (valid::V { root: &ss }, valid::V { root: &ds });
    let mut closed = ds.clone();
    close(&mut closed);
    let vc = valid::V { root: &closed };
    let js: Vec<Value> = values.iter().map(|v| serde_json::to_value(v).unwrap()).collect();
    for j in &js {
        c.holds("the JSON serde writes for a value is valid for the schema of the serialize contract", json!({ "type": name, "json": j }), || match vs.ok(&ss, j) {
            Some(true) => Ok(json!(true)),
            Some(false) => Err((json!("accepted"), ss.clone())),
            None => Ok(Value::Null),
        });
    }
    // members of the serialized form are required, unless they may be left out
    if let Some(opt) = r.ser {
        for j in &js {
            let mut all = vec![];
            let mut w = j.clone();
            objects(&mut w, &mut all);
            for i in 0..all.len() {
                let ks: Vec<String> = match unsafe { &*all[i] } {
                    Value::Object(m) => m.keys().cloned().collect(),
                    _ => continue,
                };
                for k in ks {
                    let mut u = j.clone();
                    let mut us = vec![];
                    objects(&mut u, &mut us);
                    unsafe { &mut *us[i] }.as_object_mut().unwrap().remove(&k);
                    let want = opt.contains(&k.as_str());
                    c.holds("a member that is always written is required by the serialize contract, and one that may be left out is not", json!({ "type": name, "json": u, "left out": k }), || match vs.ok(&ss, &u) {
                        Some(b) if b == want => Ok(json!(b)),
                        Some(_) => Err((json!(if want { "accepted" } else { "rejected" }), ss.clone())),
                        None => Ok(Value::Null),
                    });
                }
            }
        }
    }
    if r.ser_only {
        return;
    }
    let mut pool = BTreeSet::new();
    names(&ss, &mut pool);
    names(&ds, &mut pool);
    js.iter().for_each(|j| strings(j, &mut pool));
    more.iter().for_each(|j| strings(j, &mut pool));
    pool.insert("zz".into());
    let pool: Vec<String> = pool.into_iter().collect();
    let mut vals = vec![json!(null), json!(1), json!("s"), json!(true), json!({}), json!([]), json!({ "zz": 1 })];
    let mut seeds: Vec<Value> = js.clone();
    seeds.extend(more);
    vals.extend(seeds.iter().cloned());
    for j in &seeds {
        if let Value::Object(m) = j {
            vals.extend(m.values().cloned());
        }
    }
    let accept = |j: &Value| serde_json::from_str::<T>(&j.to_string()).map(|_| ()).map_err(|e| e.to_string());
    let implied = |c: &mut Ctx, j: Value| {
        let sok = vc.ok(&closed, &j);
        c.holds("JSON that is valid for the closed schema of the deserialize contract is accepted by serde's deserializer", json!({ "type": name, "json": j }), || match (sok, accept(&j)) {
            (Some(true), Err(e)) => Err((json!({ "serde": "accepted" }), json!({ "serde": e, "schema": ds }))),
            (None, _) => Ok(Value::Null),
            (Some(b), _) => Ok(json!(b)),
        });
    };
    let same = |c: &mut Ctx, j: Value, what: &str| {
        let sok = vd.ok(&ds, &j);
        c.holds("the schema of the deserialize contract wants the members serde's deserializer wants, and refuses the ones it refuses", json!({ "type": name, "json": j, "changed": what }), || match (sok, accept(&j)) {
            (Some(b), a) if b != a.is_ok() => Err((json!({ "serde": format!("{a:?}") }), json!({ "schema accepts": b, "schema": ds }))),
            (None, _) => Ok(Value::Null),
            (Some(b), _) => Ok(json!(b)),
        });
    };
    for s in &seeds {
        implied(c, s.clone());
        if r.de && accept(s).is_ok() {
            same(c, s.clone(), "");
            let mut w = s.clone();
            let mut all = vec![];
            objects(&mut w, &mut all);
            for i in 0..all.len() {
                let ks: Vec<String> = match unsafe { &*all[i] } {
                    Value::Object(m) => m.keys().cloned().collect(),
                    _ => continue,
                };
                for k in ks.iter().map(|k| Some(k.clone())).chain(Some(None)) {
                    let mut u = s.clone();
                    let mut us = vec![];
                    objects(&mut u, &mut us);
                    let m = unsafe { &mut *us[i] }.as_object_mut().unwrap();
                    match &k {
                        Some(k) => {
                            m.remove(k);
                        }
                        None => {
                            m.insert("zz".into(), json!(1));
                        }
                    }
                    same(c, u, &k.map_or("zz added".to_string(), |k| format!("{k} left out")));
                }
            }
        }
    }
    for _ in 0..n {
        let mut j = c.rng.pick(&seeds).clone();
        for _ in 0..1 + c.rng.below(3) {
            mutate(&mut c.rng, &mut j, &pool, &vals);
        }
        implied(c, j);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(&a[1], a[2] == "thorough", a[3].parse().unwrap_or(1), a[4].parse().unwrap(), &a[5]);
    types::all(&mut c, 0);
    while c.time_left() {
        types::all(&mut c, 60);
    }
    c.stats();
}
