//! C12..C17: the helpers the derive macro's code calls
use crate::ctx::*;
use crate::dynty::{self, Def, Dyn};
use crate::valid::{valid, ANNOT};
use schemars::_private as p;
use schemars::generate::SchemaSettings;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Map, Value};

fn s(v: &Value) -> Schema {
    Schema::try_from(v.clone()).unwrap()
}
const INPLACE: &[&str] = &["if", "allOf", "anyOf", "oneOf", "$ref"];
pub fn has_inplace(m: &Map<String, Value>) -> bool {
    INPLACE.iter().any(|k| m.contains_key(*k))
}
fn ensure(v: &Value) -> Map<String, Value> {
    match v {
        Value::Object(m) => m.clone(),
        Value::Bool(false) => json!({"not": {}}).as_object().unwrap().clone(),
        _ => Map::new(),
    }
}
pub fn option_schema(v: &Value) -> Value {
    dynty::set(vec![Def { name: "T".into(), id: "T".into(), inline: true, base: v.clone(), ..Default::default() }]);
    <Option<Dyn<0>>>::json_schema(&mut SchemaGenerator::default()).to_value()
}

pub fn c12(c: &mut Ctx) {
    let vals = [json!(null), json!(true), json!(0), json!(1), json!(7), json!(1.5), json!(""), json!("a"), json!("abc"), json!([]), json!([null]), json!([1]), json!({}), json!({"a": 1}), json!({"a": null, "b": "x"})];
    let mut pairs: Vec<(&str, Value)> = vec![];
    for t in [json!("null"), json!("string"), json!("integer"), json!("object"), json!(["string", "null"]), json!(["null"]), json!(["integer", "string"]), json!([])] {
        pairs.push(("type", t));
    }
    for t in [json!(null), json!(1), json!("a"), json!([null]), json!({})] {
        pairs.push(("const", t));
    }
    for t in [json!([]), json!([1]), json!(["a", null]), json!([null]), json!(["a", "abc", [null]])] {
        pairs.push(("enum", t));
    }
    let alts = [json!({"type": "null"}), json!({"type": "string"}), json!({"const": null}), json!({"enum": [1, null]}), json!({"type": ["null", "integer"]}), json!(true), json!(false), json!({"minLength": 2}), json!({"anyOf": [{"type": "null"}]}), json!({"type": "integer", "minimum": 1})];
    for k in ["anyOf", "oneOf", "allOf"] {
        pairs.push((k, json!([])));
        for a in &alts {
            pairs.push((k, json!([a])));
            for b in &alts[..6] {
                pairs.push((k, json!([a, b])));
            }
        }
    }
    for k in ["if", "then", "else", "not"] {
        for a in &alts[..5] {
            pairs.push((k, a.clone()));
        }
    }
    pairs.push(("$ref", json!("#/$defs/d")));
    pairs.push(("$defs", json!({"d": {"type": "integer"}})));
    for (k, v) in [("minLength", json!(2)), ("minimum", json!(1)), ("minItems", json!(1)), ("title", json!("t")), ("format", json!("f")), ("required", json!(["a"])), ("properties", json!({"a": {"type": "integer"}})), ("additionalProperties", json!(false)), ("items", json!({"type": "integer"})), ("default", json!(3)), ("x-a", json!({"type": "null"}))] {
        pairs.push((k, v));
    }
    let check = |c: &mut Ctx, v: &Value| {
        if let Value::Object(m) = v {
            if m.contains_key("const") && m.contains_key("enum") {
                return;
            }
            if !has_inplace(m) {
                let rest: Map<String, Value> = m.iter().filter(|(k, _)| !["type", "const", "enum"].contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect();
                if valid(&Value::Object(rest), &Value::Null) != Some(true) {
                    return;
                }
            }
            // an alternative that mentions the null type but rejects null
            if m.len() == 1 {
                for a in m.get("anyOf").and_then(Value::as_array).into_iter().flatten() {
                    if s_has_null(a) && valid(a, &Value::Null) != Some(true) {
                        return;
                    }
                }
            }
        }
        c.holds("Option<T>: accepts null, any other value exactly when T does; nullable twice is nullable once", v.clone(), || {
            let r = option_schema(v);
            // references resolve in the document of the input
            let (din, dout) = (v.clone(), with_defs(&r, v));
            for x in &vals {
                let (Some(a), Some(b)) = (valid(&din, x), valid(&dout, x)) else { continue };
                let want = a || x.is_null();
                if b != want {
                    return Err((json!({"value": x, "accepted": want}), json!({"schema": r, "accepted": b})));
                }
            }
            let rr = option_schema(&r);
            if rr != r {
                return Err((json!({"nullable twice": r}), json!({"nullable twice": rr})));
            }
            Ok(r)
        });
    };
    fn s_has_null(a: &Value) -> bool {
        match a.get("type") {
            Some(Value::String(t)) => t == "null",
            Some(Value::Array(t)) => t.iter().any(|t| t == "null"),
            _ => false,
        }
    }
    fn with_defs(r: &Value, v: &Value) -> Value {
        let mut r = r.clone();
        if let (Value::Object(m), Some(d)) = (&mut r, v.get("$defs")) {
            m.insert("$defs".into(), d.clone());
        }
        r
    }
    for b in [true, false] {
        check(c, &json!(b));
    }
    for v in combos_upto(&pairs, 2) {
        check(c, &v);
        if !c.time_left() {
            return;
        }
    }
    let n = if c.thorough { 3_000_000 } else { 100_000 };
    for _ in 0..n {
        let k = 2 + c.rng.below(4);
        let mut m = Map::new();
        for _ in 0..k {
            let (k, v) = c.rng.pick(&pairs).clone();
            m.insert(k.to_string(), v);
        }
        check(c, &Value::Object(m));
        if !c.time_left() {
            return;
        }
    }
}

/// the merge, from the statement: (parent, child) -> keywords
fn flat(a: &Value, b: &Value) -> Option<Value> {
    let b = match b {
        Value::Bool(false) => return Some(a.clone()),
        Value::Bool(true) => {
            let mut a = a.clone();
            if let Value::Object(m) = &mut a {
                if !m.contains_key("additionalProperties") && !m.contains_key("unevaluatedProperties") {
                    let k = if has_inplace(m) { "unevaluatedProperties" } else { "additionalProperties" };
                    m.insert(k.into(), json!(true));
                }
            }
            return Some(a);
        }
        Value::Object(m) => m,
        _ => return None,
    };
    let mut a = ensure(a);
    let mut b = b.clone();
    fn norm(x: &mut Map<String, Value>, y: &Map<String, Value>) {
        if x.contains_key("additionalProperties") && (y.contains_key("unevaluatedProperties") || has_inplace(y)) {
            let v = x.remove("additionalProperties").unwrap();
            x.insert("unevaluatedProperties".into(), v);
        }
    }
    norm(&mut a, &b);
    norm(&mut b, &a);
    let mut out = a.clone();
    let mut extra = vec![];
    for (k, v) in &b {
        match (k.as_str(), a.get(k)) {
            (_, None) => {
                out.insert(k.clone(), v.clone());
            }
            ("required" | "allOf", Some(Value::Array(p))) => {
                if let Value::Array(q) = v {
                    out.insert(k.clone(), Value::Array(p.iter().chain(q).cloned().collect()));
                }
            }
            ("properties" | "patternProperties", Some(Value::Object(p))) => {
                if let Value::Object(q) = v {
                    let mut p = p.clone();
                    for (n, x) in q {
                        p.insert(n.clone(), x.clone());
                    }
                    out.insert(k.clone(), Value::Object(p));
                }
            }
            ("oneOf" | "anyOf", Some(p)) => {
                out.remove(k);
                extra.push(json!({ k.as_str(): p }));
                extra.push(json!({ k.as_str(): v }));
            }
            _ => {}
        }
    }
    if !extra.is_empty() {
        match out.entry("allOf").or_insert(json!([])) {
            Value::Array(x) => x.extend(extra),
            _ => return None, // allOf is an array in every schema
        }
    }
    Some(Value::Object(out))
}
/// canonical order of what was appended to allOf (the statement fixes only that the parent's own elements come first)
fn canon(v: &Value, own: usize) -> Value {
    let mut v = v.clone();
    if let Some(Value::Array(a)) = v.get_mut("allOf") {
        if a.len() > own {
            a[own..].sort_by_key(|x| x.to_string());
        }
    }
    v
}
pub fn c13(c: &mut Ctx) {
    let mut pairs: Vec<(&str, Value)> = vec![];
    for k in ["properties", "patternProperties"] {
        pairs.push((k, json!({"a": {"type": "string"}})));
        pairs.push((k, json!({"a": true, "b": {"const": 1}})));
    }
    for k in ["required", "allOf", "anyOf", "oneOf"] {
        pairs.push((k, json!(["a"])));
        pairs.push((k, json!(["b", {"type": "null"}])));
    }
    pairs.push(("required", json!("a")));
    pairs.push(("properties", json!(1)));
    for (k, v) in [("if", json!({"x": 1})), ("then", json!(true)), ("$ref", json!("#/a")), ("type", json!("object")), ("type", json!("string")), ("title", json!("t")), ("description", json!("d")), ("additionalProperties", json!(false)), ("additionalProperties", json!({"type": "string"})), ("unevaluatedProperties", json!(false)), ("unevaluatedProperties", json!({})), ("not", json!({})), ("not", json!({"required": ["z"]})), ("default", json!(1)), ("dependentRequired", json!({"a": ["b"]})), ("x-a", json!([1])), ("propertyNames", json!({"pattern": "x"}))] {
        pairs.push((k, v));
    }
    let check = |c: &mut Ctx, a: &Value, b: &Value| {
        let Some(exp) = flat(a, b) else { return };
        let own = a.get("allOf").and_then(Value::as_array).map_or(0, Vec::len);
        c.eq("flatten(parent, child) keeps every keyword of both", json!([a, b]), canon(&exp, own), || {
            let mut x = s(a);
            p::flatten(&mut x, s(b));
            canon(&x.to_value(), own)
        });
    };
    let mut two = combos_upto(&pairs, 2);
    two.push(json!(true));
    two.push(json!(false));
    let one: Vec<Value> = combos_upto(&pairs, 1).into_iter().chain([json!(true), json!(false)]).collect();
    for a in &one {
        for b in &two {
            check(c, a, b);
            check(c, b, a);
        }
    }
    let n = if c.thorough { 4_000_000 } else { 150_000 };
    for _ in 0..n {
        let mut x = [Map::new(), Map::new()];
        for m in &mut x {
            for _ in 0..1 + c.rng.below(6) {
                let (k, v) = c.rng.pick(&pairs).clone();
                m.insert(k.to_string(), v);
            }
        }
        let [a, b] = x;
        check(c, &Value::Object(a), &Value::Object(b));
        if !c.time_left() {
            return;
        }
    }
}

pub fn c14(c: &mut Ctx) {
    let mut pairs: Vec<(&str, Value)> = vec![];
    for t in [json!("object"), json!("null"), json!("string"), json!("integer"), json!("number"), json!(["string", "null"]), json!(["integer"]), json!(["null"]), json!([]), json!("boolean")] {
        pairs.push(("type", t));
    }
    for (k, v) in [("properties", json!({})), ("properties", json!({"a": {"x": 1}, "b": true, "tag": {"type": "integer"}})), ("properties", json!(4)), ("required", json!([])), ("required", json!(["a", "tag"])), ("required", json!("q")), ("additionalProperties", json!(true)), ("additionalProperties", json!({"type": "string"})), ("unevaluatedProperties", json!(false)), ("title", json!("t")), ("description", json!("d")), ("minimum", json!(1)), ("enum", json!(["a"])), ("pattern", json!("p")), ("x-a", json!({"properties": {}})), ("anyOf", json!([{"type": "null"}])), ("const", json!("a"))] {
        pairs.push((k, v));
    }
    let names = ["a", "b", "tag", "", "type", "é\"\\", "$ref"];
    let subs = [json!(true), json!(false), json!({}), json!({"type": "string", "const": 1})];
    let check = |c: &mut Ctx, v: &Value, full: bool| {
        for key in names.iter().take(if full { 7 } else { 3 }) {
            for opt in [false, true] {
                for sub in subs.iter().take(if full { 4 } else { 1 }) {
                    let mut e = ensure(v);
                    if let Value::Object(p) = e.entry("properties").or_insert(json!({})) {
                        p.insert(key.to_string(), sub.clone());
                    }
                    if !opt {
                        if let Value::Array(r) = e.entry("required").or_insert(json!([])) {
                            r.push(json!(key));
                        }
                    }
                    c.eq("insert_object_property", json!([v, key, opt, sub]), Value::Object(e), || {
                        let mut x = s(v);
                        p::insert_object_property(&mut x, key, opt, s(sub));
                        x.to_value()
                    });
                }
            }
            for variant in ["a", "V", ""] {
                for deny in [false, true] {
                    let mut e = ensure(v);
                    let unit = e.get("type") == Some(&json!("null"));
                    e.insert("type".into(), json!("object"));
                    if let Value::Object(p) = e.entry("properties").or_insert(json!({})) {
                        p.insert(key.to_string(), json!({"type": "string", "const": variant}));
                    }
                    if let Value::Array(r) = e.entry("required").or_insert(json!([])) {
                        r.insert(0, json!(key));
                    }
                    if deny && unit {
                        e.entry("additionalProperties").or_insert(json!(false));
                    }
                    c.eq("apply_internal_enum_variant_tag", json!([v, key, variant, deny]), Value::Object(e), || {
                        let mut x = s(v);
                        p::apply_internal_enum_variant_tag(&mut x, key, variant, deny);
                        x.to_value()
                    });
                }
            }
            for text in ["", "x", " "] {
                let e = if text.is_empty() {
                    v.clone()
                } else {
                    let mut e = ensure(v);
                    e.insert(key.to_string(), json!(text));
                    Value::Object(e)
                };
                c.eq("insert_metadata_property_if_nonempty", json!([v, key, text]), e, || {
                    let mut x = s(v);
                    p::insert_metadata_property_if_nonempty(&mut x, key, text);
                    x.to_value()
                });
            }
        }
        let ty = |t: &str| match v.get("type") {
            Some(Value::String(x)) => x == t,
            Some(Value::Array(a)) => a.iter().any(|x| x == t),
            _ => false,
        };
        for t in TYPES {
            for k in ["minimum", "pattern", "zz"] {
                let e = if ty(t) || (*t == "number" && ty("integer")) {
                    let mut e = ensure(v);
                    e.insert(k.to_string(), json!(5));
                    Value::Object(e)
                } else {
                    v.clone()
                };
                c.eq("insert_validation_property", json!([v, t, k]), e, || {
                    let mut x = s(v);
                    p::insert_validation_property(&mut x, t, k, 5);
                    x.to_value()
                });
            }
        }
        c.eq("apply_inner_validation", json!(v), {
            let mut e = v.clone();
            if let Some(i) = e.get_mut("items") {
                if i.is_object() || i.is_boolean() {
                    let mut m = ensure(i);
                    m.insert("x-mark".into(), json!(1));
                    *i = Value::Object(m);
                }
            }
            e
        }, || {
            let mut x = s(v);
            p::apply_inner_validation(&mut x, |i| {
                i.insert("x-mark".into(), json!(1));
            });
            x.to_value()
        });
        for n in names {
            c.eq("new_externally_tagged_enum_variant", json!([n, v]), json!({"type": "object", "properties": {n: v}, "required": [n], "additionalProperties": false}), || p::new_externally_tagged_enum_variant(n, s(v)).to_value());
        }
    };
    for n in names {
        c.eq("new_unit_enum_variant", json!(n), json!({"type": "string", "const": n}), || p::new_unit_enum_variant(n).to_value());
    }
    check(c, &json!(true), true);
    check(c, &json!(false), true);
    for x in [json!(true), json!(false), json!({"type": "string"}), json!([{}]), json!(3)] {
        check(c, &json!({ "items": x }), true);
    }
    for (i, v) in combos_upto(&pairs, 3).iter().enumerate() {
        check(c, v, i < 60);
        if !c.time_left() {
            return;
        }
    }
}

fn forbids(v: &Value) -> bool {
    let Value::Object(m) = v else { return false };
    ["additionalProperties", "unevaluatedProperties"].iter().any(|k| m.get(*k) == Some(&json!(false))) || inplace(m).into_iter().any(forbids)
}
fn inplace(m: &Map<String, Value>) -> Vec<&Value> {
    let mut out: Vec<&Value> = vec![];
    for k in ["if", "then", "else"] {
        out.extend(m.get(k).filter(|x| x.is_object() || x.is_boolean()));
    }
    for k in ["allOf", "anyOf", "oneOf"] {
        out.extend(m.get(k).and_then(Value::as_array).into_iter().flatten().filter(|x| x.is_object() || x.is_boolean()));
    }
    out
}
/// drops `false` additional/unevaluatedProperties here and in in-place subschemas
fn allow(v: &Value) -> Value {
    let Value::Object(m) = v else { return v.clone() };
    let mut out = Map::new();
    for (k, x) in m {
        let y = match k.as_str() {
            "additionalProperties" | "unevaluatedProperties" if x == &json!(false) => continue,
            "if" | "then" | "else" => allow(x),
            "allOf" | "anyOf" | "oneOf" => match x {
                Value::Array(a) => Value::Array(a.iter().map(allow).collect()),
                _ => x.clone(),
            },
            _ => x.clone(),
        };
        out.insert(k.clone(), y);
    }
    Value::Object(out)
}
/// variants of an externally tagged enum as the derive macro writes them
fn enum_shapes() -> Vec<Value> {
    let unit = json!({"type": "string", "enum": ["A", "B"]});
    let ext = json!({"type": "object", "properties": {"C": {"type": "integer"}}, "required": ["C"], "additionalProperties": false});
    let int = json!({"type": "object", "properties": {"t": {"type": "string", "const": "D"}, "q": {"type": "integer"}}, "required": ["t"]});
    let docd = json!({"type": "string", "const": "E", "description": "doc"});
    vec![
        unit.clone(),
        json!({"oneOf": [unit, ext]}),
        json!({"oneOf": [ext, int]}),
        json!({"oneOf": [unit, docd, ext], "description": "d"}),
        json!({"oneOf": [ext]}),
        json!({"oneOf": [{"type": "string", "enum": []}, ext]}),
        json!({"anyOf": [int, {"type": "null"}, ext]}),
        json!({"anyOf": [int, {}]}),
        json!({"type": "object", "properties": {"a": {"type": "integer"}}, "required": ["a"], "additionalProperties": false}),
        json!({"type": "object", "properties": {"a": {"additionalProperties": false, "type": "object"}}, "required": ["a"], "oneOf": [ext, int], "unevaluatedProperties": false}),
        json!({"type": "object", "properties": {"a": true}, "anyOf": [ext, int]}),
        json!({"type": "object", "allOf": [{"oneOf": [ext, int]}, {"oneOf": [int, ext]}]}),
        json!({"type": "object", "oneOf": [ext, int], "anyOf": [ext, int]}),
        json!({"oneOf": []}),
        json!(true),
    ]
}
pub fn c15(c: &mut Ctx) {
    let mut shapes = enum_shapes();
    let mut pairs: Vec<(&str, Value)> = vec![
        ("type", json!("object")), ("type", json!("null")), ("additionalProperties", json!(false)), ("additionalProperties", json!(true)), ("unevaluatedProperties", json!(false)), ("properties", json!({"a": {"additionalProperties": false}})), ("required", json!(["a"])),
        ("not", json!({"additionalProperties": false})), ("patternProperties", json!({"x": {"unevaluatedProperties": false}})), ("then", json!({"additionalProperties": false, "else": {"unevaluatedProperties": false}})),
    ];
    let ends = [json!({"additionalProperties": false}), json!({"unevaluatedProperties": false, "title": "x"}), json!({"type": "object"})];
    for k in ["allOf", "anyOf", "oneOf"] {
        for e in &ends {
            pairs.push((k, json!([true, e])));
            pairs.push((k, json!([{"if": {"allOf": [e]}}, {"anyOf": [{"oneOf": [e]}]}])));
        }
    }
    for k in ["if", "else"] {
        for e in &ends {
            pairs.push((k, json!({"oneOf": [{"then": e}]})));
        }
    }
    let generic = combos_upto(&pairs, if c.thorough { 3 } else { 2 });
    // what removing forbidding keywords must produce, for shapes with no unit variants and a required field
    let set = |v: &Value, inline: bool| dynty::set(vec![Def { name: "T".into(), id: "T".into(), inline, base: v.clone(), ..Default::default() }]);
    let newtype = |c: &mut Ctx, v: &Value| {
        for inline in [false, true] {
            for inline_all in [false, true] {
                c.holds("newtype variant of an internally tagged enum", json!([v, inline, inline_all]), || {
                    set(v, inline);
                    let mut g = SchemaSettings::default().with(|s| s.inline_subschemas = inline_all).into_generator();
                    let r = p::json_schema_for_internally_tagged_enum_newtype_variant::<Dyn<0>>(&mut g).to_value();
                    let nested = v.as_object().map_or(false, |m| inplace(m).into_iter().any(forbids));
                    let top = forbids(v);
                    let is_null = v.get("type") == Some(&json!("null"));
                    // in-place applicators stop forbidding; the top level keeps what it has
                    let mut exp = v.clone();
                    if let Value::Object(m) = &mut exp {
                        let cleaned = allow(v);
                        for (k, x) in m.iter_mut() {
                            if let Some(y) = cleaned.get(k) {
                                *x = y.clone();
                            }
                        }
                    }
                    let inlined = inline || inline_all || nested || top || is_null;
                    if inlined {
                        if r != exp {
                            return Err((exp, r));
                        }
                    } else if r != json!({"$ref": "#/$defs/T"}) {
                        return Err((json!({"$ref": "#/$defs/T"}), r));
                    }
                    Ok(r)
                });
            }
        }
    };
    let flatten = |c: &mut Ctx, v: &Value, derived: bool| {
        for (opt, required) in [(false, false), (false, true), (true, true), (true, false)] {
            let optional = opt && !required;
            c.holds(&format!("flattened field, Option={opt} required={required}"), v.clone(), || {
                set(v, false);
                let mut g = SchemaGenerator::default();
                let r = if opt { p::json_schema_for_flatten::<Option<Dyn<0>>>(&mut g, required) } else { p::json_schema_for_flatten::<Dyn<0>>(&mut g, required) }.to_value();
                if forbids(&r) {
                    return Err((json!("unknown properties allowed in place"), r));
                }
                // unit variants
                let mut e = v.clone();
                let mut units = None;
                if let Value::Object(m) = &mut e {
                    if m.get("type") == Some(&json!("string")) {
                        if let Some(Value::Array(a)) = m.get("enum").cloned() {
                            m.remove("enum");
                            m.remove("type");
                            units = Some(a);
                        } else {
                            m.remove("enum");
                        }
                    }
                    if units.is_none() {
                        if let Some(Value::Array(a)) = m.get_mut("oneOf") {
                            if let Some(f) = a.first_mut().filter(|f| f.get("type") == Some(&json!("string"))) {
                                match f.get("enum") {
                                    Some(Value::Array(x)) => {
                                        units = Some(x.clone());
                                        a.remove(0);
                                    }
                                    // an `enum` that is no list is no list of unit variants
                                    Some(_) => {
                                        f.as_object_mut().unwrap().remove("enum");
                                    }
                                    None => {}
                                }
                            }
                        }
                    }
                    if let Some(u) = units {
                        let objs: Vec<Value> = u.iter().filter_map(Value::as_str).map(|n| json!({"type": "object", "properties": {n: {"type": "null"}}, "required": [n]})).collect();
                        if let Value::Array(a) = m.entry("oneOf").or_insert(json!([])) {
                            a.extend(objs);
                        }
                    }
                }
                if optional {
                    if r.get("required").is_some() || r.get("oneOf").is_some() {
                        return Err((json!("nothing required of an optional flattened field, and no bare oneOf"), r));
                    }
                    if derived && valid(&r, &json!({})) != Some(true) {
                        return Err((json!("the empty object is accepted"), r));
                    }
                    // what the inner type accepts is still accepted
                    let inner = allow(&e);
                    for x in [json!({"A": null}), json!({"C": 1}), json!({"t": "D", "q": 1}), json!({"a": 1}), json!({"t": "D", "zz": 1}), json!({"a": 1, "C": 1})] {
                        if valid(&inner, &x) == Some(true) && valid(&r, &x) == Some(false) {
                            return Err((json!({"accepted": x}), r));
                        }
                    }
                } else if r != allow(&e) {
                    return Err((allow(&e), r));
                }
                Ok(r)
            });
        }
    };
    for v in &shapes {
        flatten(c, v, true);
        newtype(c, v);
    }
    shapes.clear();
    flatten(c, &json!({"type": "string"}), false);
    for v in &generic {
        flatten(c, v, false);
        newtype(c, v);
        if !c.time_left() {
            return;
        }
    }
    let n = if c.thorough { 2_000_000 } else { 60_000 };
    let kw = ["allOf", "anyOf", "oneOf", "if", "then", "else", "additionalProperties", "unevaluatedProperties", "type"];
    for _ in 0..n {
        let mut v = c.rng.schema_with(&kw, 3);
        if let Value::Object(m) = &mut v {
            m.remove("enum");
            m.remove("$ref");
            // schemas only: applicator keywords have their proper shapes
            if ["allOf", "anyOf", "oneOf"].iter().any(|k| m.get(*k).is_some_and(|x| !x.is_array())) {
                continue;
            }
        }
        flatten(c, &v, false);
        newtype(c, &v);
        if !c.time_left() {
            return;
        }
    }
}

pub fn c16(c: &mut Ctx) {
    let must = |ch: char| "\\.+*?()|[]{}^$".contains(ch);
    let may = |ch: char| "#&-~".contains(ch);
    // reads the pattern back: the literal text it matches
    let literal = move |p: &str| -> Option<String> {
        let mut out = String::new();
        let mut it = p.chars();
        while let Some(ch) = it.next() {
            if ch == '\\' {
                let n = it.next()?;
                if !(must(n) || may(n)) {
                    return None;
                }
                out.push(n);
            } else if must(ch) {
                return None;
            } else {
                out.push(ch);
            }
        }
        Some(out)
    };
    let check = |c: &mut Ctx, v: &Value, text: &str| {
        c.holds("must_contain", json!([v, text]), || {
            let mut x = s(v);
            p::must_contain(&mut x, text);
            let r = x.to_value();
            let admits = match v.get("type") {
                Some(Value::String(t)) => t == "string",
                Some(Value::Array(a)) => a.iter().any(|t| t == "string"),
                _ => false,
            };
            let mut e = v.clone();
            if admits {
                let Some(pat) = r.get("pattern").and_then(Value::as_str) else { return Err((json!("a pattern"), r)) };
                if literal(pat).as_deref() != Some(text) {
                    return Err((json!({"pattern matching literally": text}), r));
                }
                let mut exact = String::new();
                for ch in text.chars() {
                    if must(ch) || may(ch) {
                        exact.push('\\');
                    }
                    exact.push(ch);
                }
                if pat != exact {
                    return Err((json!({ "pattern": exact }), r));
                }
                e["pattern"] = json!(pat);
            }
            if r != e {
                return Err((e, r));
            }
            Ok(r)
        });
    };
    let schemas = [json!({"type": "string"}), json!({"type": ["null", "string"], "pattern": "old", "x": 1}), json!({"type": "integer"}), json!({"type": ["array"]}), json!({}), json!(true), json!(false), json!({"type": "strings"}), json!({"type": ["object", "integer"], "format": "string"})];
    let mut chars: Vec<char> = (0u8..=255).map(|b| b as char).collect();
    chars.extend(['\u{2028}', 'é', '🚀', '\u{ff0e}']);
    for v in &schemas {
        check(c, v, "");
        for ch in &chars {
            check(c, v, &ch.to_string());
            check(c, v, &format!("a{ch}b{ch}"));
        }
    }
    for a in &chars[..128] {
        for b in &chars[..128] {
            check(c, &schemas[0], &format!("{a}{b}"));
        }
    }
    for i in 0..if c.thorough { 2_000_000 } else { 100_000 } {
        let t = c.rng.string(&chars, 12);
        check(c, &schemas[i % schemas.len()], &t);
        // the same with long runs of a character
        let mut t = String::new();
        for _ in 0..c.rng.below(4) + 1 {
            let ch = *c.rng.pick(&chars);
            let n = *c.rng.pick(&[1usize, 2, 3, 4, 8, 9, 17, 33, 65, 257]);
            t.extend(std::iter::repeat(ch).take(n));
        }
        if i % 4 == 0 {
            check(c, &schemas[i % schemas.len()], &t);
        }
        if !c.time_left() {
            return;
        }
    }
}
fn ws(ch: char) -> bool {
    matches!(ch, ' ' | '\t' | '\n' | '\r' | '\u{c}')
}
pub fn c17(c: &mut Ctx) {
    let check = |c: &mut Ctx, doc: &str| {
        let d = doc.trim_matches(ws);
        let (t, e) = if d.starts_with('#') {
            let (l, r) = match d.find('\n') {
                Some(i) => (&d[..i], &d[i..]),
                None => (d, ""),
            };
            (l.trim_start_matches('#').trim_matches(ws), r.trim_matches(ws))
        } else {
            ("", d)
        };
        c.eq("get_title_and_description", json!(doc), json!([t, e]), || {
            let (a, b) = p::get_title_and_description(doc);
            json!([a, b])
        });
    };
    let alpha = ['#', '\n', ' ', 'a', 'é', '\r', '\u{b}', '\u{a0}', '\t', '🚀', '\u{85}', '\\', '\u{c}', '"'];
    // exhaustive up to length 4 over the first 10 characters (thorough: 5)
    let top = if c.thorough { 5 } else { 4 };
    for n in 0..=top {
        let k = 10usize;
        for i in 0..k.pow(n as u32) {
            let mut j = i;
            let mut t = String::new();
            for _ in 0..n {
                t.push(alpha[j % k]);
                j /= k;
            }
            check(c, &t);
        }
        if !c.time_left() {
            return;
        }
    }
    for _ in 0..if c.thorough { 4_000_000 } else { 200_000 } {
        let mut t = c.rng.string(&alpha, 14);
        if c.rng.chance(1, 2) {
            t.insert(0, '#');
        }
        check(c, &t);
        // the same with long runs of a character
        let mut t = String::new();
        for _ in 0..c.rng.below(5) + 1 {
            let ch = if t.is_empty() { '#' } else { *c.rng.pick(&alpha) };
            let n = *c.rng.pick(&[1usize, 2, 3, 4, 6, 7, 8, 9, 16, 17, 32, 33, 65, 129, 257]);
            t.extend(std::iter::repeat(ch).take(n));
        }
        check(c, &t);
        if !c.time_left() {
            return;
        }
    }
}
#[allow(dead_code)]
fn _use() {
    let _ = ANNOT;
}
