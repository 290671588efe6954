//! C05..C11, C21: transforms against independent executable specifications
use crate::ctx::*;
use schemars::transform::*;
use schemars::Schema;
use serde_json::{json, Map, Value};

pub fn is_schema(v: &Value) -> bool {
    v.is_object() || v.is_boolean()
}
/// f applied to every direct subschema
pub fn subs(v: &Value, f: &mut dyn FnMut(&Value) -> Value) -> Value {
    let Value::Object(m) = v else { return v.clone() };
    let mut app = |x: &Value| if is_schema(x) { f(x) } else { x.clone() };
    let mut out = Map::new();
    for (k, x) in m {
        let k_ = k.as_str();
        let y = if SUB1.contains(&k_) || (k_ == "items" && !x.is_array()) {
            app(x)
        } else if SUBARR.contains(&k_) || k_ == "items" {
            match x {
                Value::Array(a) => Value::Array(a.iter().map(|e| app(e)).collect()),
                _ => x.clone(),
            }
        } else if SUBOBJ.contains(&k_) {
            match x {
                Value::Object(a) => Value::Object(a.iter().map(|(k, e)| (k.clone(), app(e))).collect()),
                _ => x.clone(),
            }
        } else {
            x.clone()
        };
        out.insert(k.clone(), y);
    }
    Value::Object(out)
}
fn run(mut t: impl Transform, v: &Value) -> Value {
    let mut s = Schema::try_from(v.clone()).unwrap();
    t.transform(&mut s);
    s.to_value()
}
/// bottom-up: subschemas first, then `local` on the object itself
fn post(v: &Value, local: &dyn Fn(Map<String, Value>) -> Map<String, Value>) -> Value {
    match subs(v, &mut |x| post(x, local)) {
        Value::Object(m) => Value::Object(local(m)),
        o => o,
    }
}
/// inputs: exhaustive small objects over `pairs` in every context, then random schemas with the focus keywords
fn drive(c: &mut Ctx, pairs: &[(&str, Value)], n: usize, focus: &[&str], check: &mut dyn FnMut(&mut Ctx, &Value)) {
    let leaves = combos_upto(pairs, n);
    let full = if c.thorough { leaves.len() } else { 600 };
    for (i, l) in leaves.iter().enumerate() {
        check(c, l);
        if i < full || c.rng.chance(1, 20) {
            for x in contexts(l) {
                if is_schema(&x) {
                    check(c, &x);
                }
            }
        }
        if i % 8 == 0 && !c.time_left() {
            return;
        }
    }
    // two-level nesting of a few leaves
    for l in leaves.iter().filter(|l| l.as_object().unwrap().len() > 0).take(if c.thorough { 12 } else { 3 }) {
        for x in contexts(l) {
            for y in contexts(&x) {
                if is_schema(&y) {
                    check(c, &y);
                }
            }
            if !c.time_left() {
                return;
            }
        }
    }
    let max = if c.thorough { 4_000_000 } else { 60_000 };
    let mut i = 0;
    while c.time_left() && i < max {
        let d = 1 + c.rng.below(4);
        let v = c.rng.schema_with(focus, d);
        check(c, &v);
        i += 1;
    }
}

pub fn c05(c: &mut Ctx) {
    #[derive(Clone)]
    struct Count(Vec<Value>);
    impl Transform for Count {
        fn transform(&mut self, s: &mut Schema) {
            self.0.push(s.as_value().clone());
            let n = s.get("x-visits").and_then(Value::as_u64).unwrap_or(0);
            s.insert("x-visits".into(), (n + 1).into());
        }
    }
    fn mark(v: &Value) -> Value {
        let mut m = match v {
            Value::Object(m) => m.clone(),
            Value::Bool(false) => json!({"not": {}}).as_object().unwrap().clone(),
            _ => Map::new(),
        };
        let n = m.get("x-visits").and_then(Value::as_u64).unwrap_or(0);
        m.insert("x-visits".into(), (n + 1).into());
        Value::Object(m)
    }
    fn rec(v: &Value, n: &mut usize) -> Value {
        *n += 1;
        subs(&mark(v), &mut |x| rec(x, n))
    }
    let pairs: Vec<(&str, Value)> = keywords().into_iter().flat_map(|k| [(k, json!({"title": "t"})), (k, json!([true, {"a": {}}, 3])), (k, json!({"a": false, "b": {"not": true}, "c": 1})), (k, json!("s"))]).collect();
    let kw = keywords();
    drive(c, &pairs, 2, &kw, &mut |c, v| {
        let exp = {
            let mut n = 0u64;
            let r = subs(v, &mut |x| {
                n += 1;
                mark(x)
            });
            json!([r, n])
        };
        c.eq("transform_subschemas applies the transform exactly once to each direct subschema and touches nothing else", v.clone(), exp, || {
            let mut s = Schema::try_from(v.clone()).unwrap();
            let mut t = Count(vec![]);
            transform_subschemas(&mut t, &mut s);
            json!([s.to_value(), t.0.len()])
        });
        let mut n = 0;
        let r = rec(v, &mut n);
        c.eq("RecursiveTransform applies the transform to the schema first, then to all schemas below", v.clone(), r, || {
            run(
                RecursiveTransform(|s: &mut Schema| {
                    let n = s.get("x-visits").and_then(Value::as_u64).unwrap_or(0);
                    s.insert("x-visits".into(), (n + 1).into());
                }),
                v,
            )
        });
    });
}

pub fn rbs(v: &Value, skip: bool) -> Value {
    match v {
        Value::Bool(true) => json!({}),
        Value::Bool(false) => json!({"not": {}}),
        _ => {
            let mut r = subs(v, &mut |x| rbs(x, skip));
            if skip && v.get("additionalProperties").is_some_and(Value::is_boolean) {
                r["additionalProperties"] = v["additionalProperties"].clone();
            }
            r
        }
    }
}
pub fn c06(c: &mut Ctx) {
    let pairs: Vec<(&str, Value)> = keywords().into_iter().flat_map(|k| [(k, json!(true)), (k, json!(false)), (k, json!([true, false, {"additionalProperties": false}])), (k, json!({"a": true, "additionalProperties": false, "not": false}))]).collect();
    let mut kw = keywords();
    kw.extend(["additionalProperties"; 10]);
    drive(c, &pairs, 2, &kw, &mut |c, v| {
        for skip in [false, true] {
            c.eq(&format!("ReplaceBoolSchemas skip_additional_properties={skip}"), v.clone(), rbs(v, skip), || {
                let mut t = ReplaceBoolSchemas::default();
                t.skip_additional_properties = skip;
                run(t, v)
            });
        }
    });
    for b in [true, false] {
        c.eq("ReplaceBoolSchemas on a boolean schema", json!(b), rbs(&json!(b), false), || run(ReplaceBoolSchemas::default(), &json!(b)));
    }
}
pub fn rrs(mut m: Map<String, Value>) -> Map<String, Value> {
    if m.len() > 1 && m.contains_key("$ref") {
        // an allOf that is not an array is not a schema in any draft: not part of the property
        if m.get("allOf").is_some_and(|a| !a.is_array()) {
            m.remove("$ref");
            return m;
        }
        let r = m.remove("$ref").unwrap();
        let mut a = m.get("allOf").and_then(Value::as_array).cloned().unwrap_or_default();
        a.push(json!({ "$ref": r }));
        m.insert("allOf".into(), Value::Array(a));
    }
    m
}
pub fn c07(c: &mut Ctx) {
    let mut pairs: Vec<(&str, Value)> = vec![("$ref", json!("#/$defs/a")), ("$ref", json!("")), ("$ref", json!(3)), ("allOf", json!([])), ("allOf", json!([true])), ("allOf", json!([{"$ref": "#"}, {"$ref": "#", "title": "x"}]))];
    for k in keywords() {
        if k != "$ref" && k != "allOf" {
            pairs.push((k, json!({"$ref": "#/b", "a": 1})));
            pairs.push((k, json!([{"$ref": "#/b", "a": 1}])));
            pairs.push((k, json!({"a": {"$ref": "#/b", "a": 1}})));
        }
    }
    let mut kw = keywords();
    kw.extend(["$ref"; 20]);
    kw.extend(["allOf"; 10]);
    drive(c, &pairs, 2, &kw, &mut |c, v| c.eq("RemoveRefSiblings", v.clone(), post(v, &rrs), || run(RemoveRefSiblings::default(), v)));
}
pub fn sse(mut m: Map<String, Value>) -> Map<String, Value> {
    if let Some(Value::Array(a)) = m.remove("examples") {
        if let Some(f) = a.first() {
            m.insert("example".into(), f.clone());
        }
    }
    m
}
pub fn rcv(mut m: Map<String, Value>) -> Map<String, Value> {
    if let Some(v) = m.remove("const") {
        m.insert("enum".into(), json!([v]));
    }
    m
}
pub fn rpi(mut m: Map<String, Value>) -> Map<String, Value> {
    if let Some(p) = m.remove("prefixItems") {
        if let Some(i) = m.insert("items".into(), p) {
            m.insert("additionalItems".into(), i);
        }
    }
    m
}
pub fn c08(c: &mut Ctx) {
    let vals = [json!(null), json!(false), json!([]), json!([1, 2]), json!([null]), json!({"const": 1, "examples": [7]}), json!("x"), json!([{"prefixItems": [{}], "items": {}}])];
    let mut pairs: Vec<(&str, Value)> = vec![];
    for k in ["const", "enum", "examples", "example", "prefixItems", "items", "additionalItems", "default", "title", "type"] {
        for v in &vals {
            pairs.push((k, v.clone()));
        }
    }
    let mut kw = keywords();
    for k in ["const", "enum", "examples", "example", "prefixItems", "items", "additionalItems"] {
        kw.extend([k; 6]);
    }
    drive(c, &pairs, 2, &kw, &mut |c, v| {
        c.eq("SetSingleExample", v.clone(), post(v, &sse), || run(SetSingleExample::default(), v));
        c.eq("ReplaceConstValue", v.clone(), post(v, &rcv), || run(ReplaceConstValue::default(), v));
        c.eq("ReplacePrefixItems", v.clone(), post(v, &rpi), || run(ReplacePrefixItems::default(), v));
    });
}

fn has_null(m: &Map<String, Value>) -> bool {
    match m.get("type") {
        Some(Value::String(s)) => s == "null",
        Some(Value::Array(a)) => a.iter().any(|t| t == "null"),
        _ => false,
    }
}
pub fn add_nullable(v: &Value, rn: bool, ac: bool) -> Value {
    let Value::Object(m) = v else { return v.clone() };
    let mut m = m.clone();
    if has_null(&m) {
        m.insert("nullable".into(), json!(true));
        let rest: Vec<Value> = match &m["type"] {
            Value::Array(a) => a.iter().filter(|t| *t != "null").cloned().collect(),
            _ => vec![],
        };
        let null_only = rest.is_empty();
        if null_only && ac {
            m.insert("const".into(), Value::Null);
        }
        if rn {
            if null_only && ac {
                m.remove("type");
            } else if rest.len() == 1 {
                m.insert("type".into(), rest[0].clone());
            } else {
                m.insert("type".into(), Value::Array(rest));
            }
        }
    }
    subs(&Value::Object(m), &mut |x| add_nullable(x, rn, ac))
}
pub fn c09(c: &mut Ctx) {
    let mut pairs: Vec<(&str, Value)> = vec![];
    for t in [json!("null"), json!("string"), json!([]), json!(["null"]), json!(["string", "null"]), json!(["null", "string"]), json!(["null", "string", "integer"]), json!(["null", "null"]), json!(["null", "string", "null"]), json!([null, "null"]), json!(null), json!({"null": "null"}), json!("nullable"), json!([["null"]])] {
        pairs.push(("type", t));
    }
    for k in keywords() {
        if k != "type" {
            pairs.push((k, json!("null")));
            pairs.push((k, json!(["null", {"type": "null"}])));
            pairs.push((k, json!({"a": {"type": ["null", "x"]}, "type": "null"})));
        }
    }
    let mut kw = keywords();
    kw.extend(["type"; 25]);
    kw.extend(["const", "enum", "nullable"]);
    drive(c, &pairs, 2, &kw, &mut |c, v| {
        for rn in [false, true] {
            for ac in [false, true] {
                c.eq(&format!("AddNullable remove_null_type={rn} add_const_null={ac}"), v.clone(), add_nullable(v, rn, ac), || {
                    let mut t = AddNullable::default();
                    t.remove_null_type = rn;
                    t.add_const_null = ac;
                    run(t, v)
                });
            }
        }
    });
    let d = AddNullable::default();
    c.eq("AddNullable defaults", json!([]), json!([true, true]), || json!([d.remove_null_type, d.add_const_null]));
}
fn inplace(v: &Value) -> Vec<&Value> {
    let mut out = vec![];
    if let Value::Object(m) = v {
        for k in ["if", "then", "else"] {
            out.extend(m.get(k).filter(|x| is_schema(x)));
        }
        for k in ["allOf", "anyOf", "oneOf"] {
            out.extend(m.get(k).and_then(Value::as_array).into_iter().flatten().filter(|x| is_schema(x)));
        }
    }
    out
}
fn names(v: &Value, out: &mut std::collections::BTreeSet<String>) {
    if let Some(Value::Object(p)) = v.get("properties") {
        out.extend(p.keys().cloned());
    }
    for x in inplace(v) {
        names(x, out);
    }
}
pub fn rup(mut m: Map<String, Value>) -> Map<String, Value> {
    let Some(up) = m.remove("unevaluatedProperties") else { return m };
    m.insert("additionalProperties".into(), up);
    let mut ns = Default::default();
    names(&Value::Object(m.clone()), &mut ns);
    if ns.is_empty() {
        return m;
    }
    if let Value::Object(p) = m.entry("properties").or_insert(json!({})) {
        for n in ns {
            p.entry(n).or_insert(json!(true));
        }
    }
    m
}
pub fn c10(c: &mut Ctx) {
    let mut pairs: Vec<(&str, Value)> = vec![
        ("unevaluatedProperties", json!(false)),
        ("unevaluatedProperties", json!({"unevaluatedProperties": true, "allOf": [{"properties": {"q": {}}}]})),
        ("properties", json!({"a": false, "b": {"unevaluatedProperties": 1}})),
        ("properties", json!({})),
        ("properties", json!(3)),
        ("additionalProperties", json!({"type": "string"})),
    ];
    let leaf = json!({"properties": {"a": {}, "p": {"properties": {"no": 1}}}, "if": {"properties": {"pp": 1}}, "patternProperties": {"^x": {"properties": {"no2": 1}}}});
    for k in keywords() {
        if k != "unevaluatedProperties" && k != "properties" {
            pairs.push((k, leaf.clone()));
            pairs.push((k, json!([leaf, true, {"anyOf": [{"properties": {"c": true}}]}])));
        }
    }
    let mut kw = keywords();
    for k in ["unevaluatedProperties", "properties", "allOf", "anyOf", "oneOf", "if", "then", "else"] {
        kw.extend([k; 8]);
    }
    drive(c, &pairs, 3, &kw, &mut |c, v| c.eq("ReplaceUnevaluatedProperties", v.clone(), post(v, &rup), || run(ReplaceUnevaluatedProperties::default(), v)));
}
const F07: &[&str] = &["date-time", "date", "time", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "regex"];
fn rf(v: &Value, infer: bool, draft: Option<u8>, allowed: &[&str]) -> Value {
    let Value::Object(m) = v else { return v.clone() };
    let mut draft = draft;
    if infer {
        if let Some(s) = m.get("$schema") {
            draft = match s.as_str() {
                Some("http://json-schema.org/draft-07/schema#") => Some(0),
                Some("https://json-schema.org/draft/2019-09/schema") | Some("https://json-schema.org/draft/2020-12/schema") => Some(1),
                _ => return v.clone(),
            };
        }
    }
    let mut m = m.clone();
    if let Some(f) = m.get("format").and_then(Value::as_str) {
        let ok = (infer && draft.is_none()) || allowed.contains(&f) || draft.is_some_and(|d| F07.contains(&f) || (d == 1 && (f == "uuid" || f == "duration")));
        if !ok {
            m.remove("format");
        }
    }
    subs(&Value::Object(m), &mut |x| rf(x, infer, draft, allowed))
}
pub fn c11(c: &mut Ctx) {
    let mut pairs: Vec<(&str, Value)> = vec![("format", json!(3)), ("format", json!({"format": "custom"})), ("$schema", json!(null)), ("$schema", json!({}))];
    for f in F07.iter().chain(FORMATS) {
        pairs.push(("format", json!(f)));
    }
    for f in METAS {
        pairs.push(("$schema", json!(f)));
    }
    for k in keywords() {
        if k != "$schema" && k != "format" {
            pairs.push((k, json!({"format": "custom", "$schema": METAS[0], "a": {"format": "uuid"}, "allOf": [{"format": "uuid"}]})));
            pairs.push((k, json!([{"format": "uuid"}, {"format": "duration", "$schema": METAS[4]}, {"format": "date"}])));
        }
    }
    let mut kw = keywords();
    for k in ["format", "$schema"] {
        kw.extend([k; 20]);
    }
    drive(c, &pairs, 2, &kw, &mut |c, v| {
        for infer in [true, false] {
            for allowed in [&[][..], &["custom", "uuid"], &["date"]] {
                let mut t = RestrictFormats::default();
                t.infer_from_meta_schema = infer;
                t.allowed_formats = allowed.iter().map(|s| (*s).into()).collect();
                for (m, vv) in [(None, v.clone())].into_iter().chain(METAS.iter().filter(|_| v.is_object() && v.get("$schema").is_none()).take(2).map(|m| {
                    let mut w = v.clone();
                    w["$schema"] = json!(m);
                    (Some(m), w)
                })) {
                    let _ = m;
                    c.eq(&format!("RestrictFormats infer={infer} allowed={allowed:?}"), vv.clone(), rf(&vv, infer, None, allowed), || run(t.clone(), &vv));
                }
            }
        }
    });
    let d = RestrictFormats::default();
    c.eq("RestrictFormats defaults", json!([]), json!([true, 0]), || json!([d.infer_from_meta_schema, d.allowed_formats.len()]));
}
/// every object in subschema position of `v` (itself included)
fn each(v: &Value, f: &mut dyn FnMut(&Map<String, Value>)) {
    if let Value::Object(m) = v {
        f(m);
        subs(v, &mut |x| {
            each(x, f);
            x.clone()
        });
    }
}
fn each_bool(v: &Value, f: &mut dyn FnMut(&str)) {
    // boolean schemas in subschema position, by keyword
    if let Value::Object(m) = v {
        for (k, x) in m {
            let one = json!({ k.as_str(): x });
            subs(&one, &mut |y| {
                if y.is_boolean() {
                    f(k);
                }
                each_bool(y, f);
                y.clone()
            });
        }
    }
}
pub fn c21(c: &mut Ctx) {
    use schemars::generate::SchemaSettings;
    let mut pairs: Vec<(&str, Value)> = vec![
        ("$ref", json!("#/x")), ("$ref", json!("")), ("allOf", json!([true, {"const": 1, "properties": {"z": {}}}])), ("allOf", json!([])), ("prefixItems", json!([{"const": null}, true])), ("items", json!({"prefixItems": [], "items": false})),
        ("unevaluatedProperties", json!(true)), ("unevaluatedProperties", json!({"$ref": "#", "const": 1})), ("const", json!({"const": 1})), ("enum", json!([1])), ("examples", json!([{"examples": [1]}, 2])), ("examples", json!([])),
        ("type", json!("null")), ("type", json!(["null"])), ("type", json!(["null", "string"])), ("type", json!(["null", "string", "array"])), ("additionalProperties", json!(false)), ("additionalProperties", json!({"not": true})),
        ("properties", json!({"a": true, "b": {"type": "null", "$ref": "#"}})), ("anyOf", json!([{"unevaluatedProperties": false, "properties": {"y": true}, "if": {"properties": {"x": 1}}}, false])), ("not", json!(true)), ("if", json!({"const": 1, "$ref": "#"})), ("title", json!("t")),
        ("definitions", json!({"d": {"prefixItems": [false], "$ref": "#/a", "examples": ["null"]}})), ("$defs", json!({"d": true})),
    ];
    pairs.push(("dependentSchemas", json!({"d": {"const": 1, "prefixItems": [{}]}})));
    let mut kw = keywords();
    for k in ["unevaluatedProperties", "properties", "allOf", "prefixItems", "items", "const", "examples", "type", "$ref", "additionalProperties"] {
        kw.extend([k; 5]);
    }
    drive(c, &pairs, 3, &kw, &mut |c, v| {
        // the statement speaks of schemas: allOf, examples and prefixItems are arrays
        let mut wf = true;
        each(v, &mut |m| wf &= m.get("allOf").map_or(true, Value::is_array) && m.get("examples").map_or(true, Value::is_array) && m.get("prefixItems").map_or(true, Value::is_array));
        if !wf {
            return;
        }
        for preset in ["draft07", "2019-09", "openapi3"] {
            c.holds(&format!("preset {preset} leaves none of the keywords its dialect lacks"), v.clone(), || {
                let s = match preset {
                    "draft07" => SchemaSettings::draft07(),
                    "2019-09" => SchemaSettings::draft2019_09(),
                    _ => SchemaSettings::openapi3(),
                };
                let mut g = s.into_generator();
                let mut sc = Schema::try_from(v.clone()).unwrap();
                for t in g.transforms_mut() {
                    t.transform(&mut sc);
                }
                let r = sc.to_value();
                let mut bad = vec![];
                each(&r, &mut |m| {
                    let mut no = |k: &str| {
                        if m.contains_key(k) {
                            bad.push(k.to_string())
                        }
                    };
                    no("prefixItems");
                    if preset != "2019-09" {
                        no("unevaluatedProperties");
                        if m.contains_key("$ref") && m.len() > 1 {
                            bad.push("$ref beside other keywords".into())
                        }
                    }
                    if preset == "openapi3" {
                        if m.contains_key("const") || m.contains_key("examples") {
                            bad.push("const/examples".into())
                        }
                        if has_null(m) {
                            bad.push("null type".into())
                        }
                    }
                });
                if preset == "openapi3" {
                    if r.is_boolean() {
                        bad.push("boolean schema".into());
                    }
                    each_bool(&r, &mut |k| {
                        if k != "additionalProperties" {
                            bad.push(format!("boolean schema under {k}"))
                        }
                    });
                }
                if bad.is_empty() { Ok(r) } else { Err((json!("none of the keywords"), json!({"after": r, "bad": bad}))) }
            });
        }
    });
}
