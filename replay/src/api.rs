//! C01: the Schema API
use crate::ctx::*;
use schemars::Schema;
use serde_json::{json, Map, Value};

fn as_obj(v: &Value) -> Map<String, Value> {
    match v {
        Value::Object(m) => m.clone(),
        Value::Bool(false) => {
            let mut m = Map::new();
            m.insert("not".into(), json!({}));
            m
        }
        _ => Map::new(),
    }
}
fn opt(o: Option<&Value>) -> Value {
    match o {
        Some(v) => json!([v]),
        None => json!([]),
    }
}
fn has_type(v: &Value, ty: &str) -> bool {
    // visible through insert_validation_property
    match v.get("type") {
        Some(Value::String(s)) => s == ty,
        Some(Value::Array(a)) => a.iter().any(|x| x == ty),
        _ => false,
    }
}

fn conversions(c: &mut Ctx, v: &Value) {
    let ok = v.is_object() || v.is_boolean();
    let exp = json!([ok, v]);
    c.eq("Schema::try_from(Value) succeeds exactly on objects and booleans and keeps the value", v.clone(), if ok { json!([true, v]) } else { json!([false]) }, || match Schema::try_from(v.clone()) {
        Ok(s) => json!([true, s.as_value().clone()]),
        Err(_) => json!([false]),
    });
    c.eq("<&Schema>::try_from(&Value)", v.clone(), if ok { json!([true, v]) } else { json!([false]) }, || match <&Schema>::try_from(v) {
        Ok(s) => json!([true, s.as_value().clone()]),
        Err(_) => json!([false]),
    });
    c.eq("<&mut Schema>::try_from(&mut Value) and the value afterwards", v.clone(), json!([ok, v, v]), || {
        let mut w = v.clone();
        let r = match <&mut Schema>::try_from(&mut w) {
            Ok(s) => (true, s.as_value().clone()),
            Err(_) => (false, v.clone()),
        };
        json!([r.0, r.1, w])
    });
    c.eq("deserializing a Schema", v.clone(), if ok { exp.clone() } else { json!([false]) }, || match serde_json::from_str::<Schema>(&v.to_string()) {
        Ok(s) => json!([true, s.as_value().clone()]),
        Err(_) => json!([false]),
    });
    if !ok {
        return;
    }
    let s = || Schema::try_from(v.clone()).unwrap();
    c.eq("as_bool / as_object / as_value / to_value / PartialEq<bool>", v.clone(), json!([v.as_bool(), v.as_object(), v, v, v == &json!(true), v == &json!(false), v]), || {
        let mut x = s();
        let am = x.as_object_mut().map(|o| o.clone());
        assert_eq!(am.as_ref(), v.as_object());
        json!([x.as_bool(), x.as_object(), x.as_value(), x.clone().to_value(), x == true, x == false, Value::from(x)])
    });
    c.eq("ensure_object", v.clone(), json!([as_obj(v), as_obj(v)]), || {
        let mut x = s();
        let o = x.ensure_object().clone();
        json!([o, x.to_value()])
    });
}
fn edits(c: &mut Ctx, v: &Value, k: &str, w: &Value) {
    let s = || Schema::try_from(v.clone()).unwrap();
    let m = as_obj(v);
    let mut m2 = m.clone();
    let old = m2.insert(k.to_string(), w.clone());
    let inp = json!({ "schema": v, "key": k, "value": w });
    c.eq("insert", inp.clone(), json!([opt(old.as_ref()), m2]), || {
        let mut x = s();
        let r = x.insert(k.to_string(), w.clone());
        json!([opt(r.as_ref()), x.to_value()])
    });
    let got = v.as_object().and_then(|o| o.get(k));
    c.eq("get", inp.clone(), json!([opt(got), v]), || {
        let x = s();
        json!([opt(x.get(k)), x.as_value()])
    });
    let mut m3 = v.clone();
    if let Some(x) = m3.as_object_mut().and_then(|o| o.get_mut(k)) {
        *x = w.clone();
    }
    c.eq("get_mut then assignment", inp.clone(), json!([opt(got), m3]), || {
        let mut x = s();
        let r = opt(x.get_mut(k).map(|r| &*r));
        if let Some(p) = x.get_mut(k) {
            *p = w.clone();
        }
        json!([r, x.to_value()])
    });
    let mut m4 = v.clone();
    let rem = m4.as_object_mut().and_then(|o| o.remove(k));
    c.eq("remove", inp.clone(), json!([opt(rem.as_ref()), m4]), || {
        let mut x = s();
        let r = x.remove(k);
        json!([opt(r.as_ref()), x.to_value()])
    });
    if let Value::String(t) = w {
        let mut e = Value::Object(as_obj(v));
        if !has_type(v, t) && !(t == "number" && has_type(v, "integer")) {
            e = v.clone();
        } else {
            e["k"] = json!(1);
        }
        c.eq("type test", json!({"schema": v, "type": t}), e, || {
            let mut x = s();
            schemars::_private::insert_validation_property(&mut x, t, "k", 1);
            x.to_value()
        });
    }
}

pub fn c01(c: &mut Ctx) {
    let mut vals: Vec<Value> = vec![
        json!(null), json!(true), json!(false), json!(0), json!(-3), json!(2.5), json!(u64::MAX), json!(""), json!("a"), json!([]), json!([true]), json!([{}]), json!({}), json!({"not": {}}),
        json!({"type": "string"}), json!({"type": ["null", "string"]}), json!({"type": []}), json!({"type": [["null"]]}), json!({"type": {"a": "null"}}), json!({"type": 3}),
        json!({"type": ["object", "integer", "null"], "a": 1}), json!({"a": null, "b": false, "not": true}),
    ];
    for _ in 0..if c.thorough { 400 } else { 60 } {
        let d = c.rng.below(3);
        vals.push(c.rng.schema(d));
        vals.push(c.rng.junk(3));
    }
    c.eq("new_ref", json!("#/a"), json!({"$ref": "#/a"}), || Schema::new_ref("#/a".into()).to_value());
    for r in NAMES {
        c.eq("new_ref", json!(r), json!({ "$ref": r }), || Schema::new_ref(r.to_string()).to_value());
    }
    for b in [true, false] {
        c.eq("Schema::from(bool)", json!(b), json!(b), || Schema::from(b).to_value());
    }
    c.eq("Schema::default()", json!(null), json!({}), || Schema::default().to_value());
    for v in &vals {
        conversions(c, v);
        if let Value::Object(m) = v {
            c.eq("Schema::from(Map)", v.clone(), v.clone(), || Schema::from(m.clone()).to_value());
        }
    }
    let keys: Vec<&str> = NAMES.iter().copied().chain(["additionalProperties", "x"]).collect();
    for v in vals.iter().filter(|v| v.is_object() || v.is_boolean()) {
        let mut ks: Vec<String> = v.as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
        ks.extend(keys.iter().map(|s| s.to_string()));
        for k in ks {
            let w = c.rng.junk(1);
            edits(c, v, &k, &w);
            let t = *c.rng.pick(TYPES);
            edits(c, v, &k, &json!(t));
        }
        if !c.time_left() {
            break;
        }
    }
    // sequences of edits against a model map
    while c.time_left() {
        let d = c.rng.below(3);
        let v = c.rng.schema(d);
        let mut r = c.rng.clone();
        let steps = 1 + c.rng.below(8);
        let mut model = v.clone();
        let mut script = vec![];
        for _ in 0..steps {
            let k = r.pick(&keys).to_string();
            match r.below(4) {
                0 => {
                    let w = r.junk(1);
                    let mut m = as_obj(&model);
                    m.insert(k.clone(), w.clone());
                    model = Value::Object(m);
                    script.push(json!(["insert", k, w]));
                }
                1 => {
                    if let Some(o) = model.as_object_mut() {
                        o.remove(&k);
                    }
                    script.push(json!(["remove", k]));
                }
                2 => {
                    model = Value::Object(as_obj(&model));
                    script.push(json!(["ensure_object"]));
                }
                _ => {
                    let w = r.junk(1);
                    if let Some(x) = model.as_object_mut().and_then(|o| o.get_mut(&k)) {
                        *x = w.clone();
                    }
                    script.push(json!(["get_mut", k, w]));
                }
            }
        }
        c.rng = r;
        let inp = json!({ "schema": v, "script": script });
        c.eq("edit script", inp, model, || {
            let mut x = Schema::try_from(v.clone()).unwrap();
            for s in &script {
                let k = s[1].as_str().unwrap_or("");
                match s[0].as_str().unwrap() {
                    "insert" => {
                        x.insert(k.into(), s[2].clone());
                    }
                    "remove" => {
                        x.remove(k);
                    }
                    "ensure_object" => {
                        x.ensure_object();
                    }
                    _ => {
                        if let Some(p) = x.get_mut(k) {
                            *p = s[2].clone();
                        }
                    }
                }
            }
            x.to_value()
        });
        if c.evaluations > 400_000 {
            break;
        }
    }
}
