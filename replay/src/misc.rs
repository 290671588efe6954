//! C18, C19, C20, C22: serialization order, map keys, inferred schemas, numeric ranges
use crate::ctx::*;
use crate::dynty::{self, Def};
use crate::valid::{pattern, valid};
use schemars::generate::{Contract, SchemaSettings};
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------- C18
/// a JSON document with the order and the duplicates of the text
#[derive(Debug, PartialEq)]
enum O {
    A(Vec<O>),
    M(Vec<(String, O)>),
    L(Value),
}
impl<'de> serde::Deserialize<'de> for O {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<O, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = O;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "json")
            }
            fn visit_unit<E>(self) -> Result<O, E> {
                Ok(O::L(Value::Null))
            }
            fn visit_bool<E>(self, b: bool) -> Result<O, E> {
                Ok(O::L(json!(b)))
            }
            fn visit_i64<E>(self, b: i64) -> Result<O, E> {
                Ok(O::L(json!(b)))
            }
            fn visit_u64<E>(self, b: u64) -> Result<O, E> {
                Ok(O::L(json!(b)))
            }
            fn visit_f64<E>(self, b: f64) -> Result<O, E> {
                Ok(O::L(json!(b)))
            }
            fn visit_str<E>(self, b: &str) -> Result<O, E> {
                Ok(O::L(json!(b)))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<O, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(O::A(v))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<O, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(O::M(v))
            }
        }
        d.deserialize_any(Vis)
    }
}
fn ordered(v: &Value) -> O {
    match v {
        Value::Array(a) => O::A(a.iter().map(ordered).collect()),
        Value::Object(m) => O::M(m.iter().map(|(k, v)| (k.clone(), ordered(v))).collect()),
        x => O::L(x.clone()),
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Schema,
    Named,
    Plain,
}
const FIRST: &[&str] = &["$id", "$schema", "title", "description", "type", "format", "properties"];
const LAST: &[&str] = &["$defs", "definitions"];
/// what the text of `v` has to be
fn emitted(v: &Value, k: Kind) -> O {
    match v {
        _ if k == Kind::Plain => ordered(v),
        Value::Array(a) => O::A(a.iter().map(|x| emitted(x, Kind::Schema)).collect()),
        Value::Object(m) if k == Kind::Named => O::M(m.iter().map(|(n, x)| (n.clone(), emitted(x, Kind::Schema))).collect()),
        Value::Object(m) => {
            let f = |n: &str, x: &Value| {
                let kind = if n == "examples" || n == "default" || n.starts_with("x-") {
                    Kind::Plain
                } else if ["properties", "patternProperties", "dependentSchemas", "$defs", "definitions"].contains(&n) {
                    Kind::Named
                } else {
                    Kind::Schema
                };
                (n.to_string(), emitted(x, kind))
            };
            let mut out = vec![];
            for n in FIRST {
                out.extend(m.get(*n).map(|x| f(n, x)));
            }
            out.extend(m.iter().filter(|(n, _)| !FIRST.contains(&n.as_str()) && !LAST.contains(&n.as_str())).map(|(n, x)| f(n, x)));
            for n in LAST {
                out.extend(m.get(*n).map(|x| f(n, x)));
            }
            O::M(out)
        }
        x => O::L(x.clone()),
    }
}
pub fn c18(c: &mut Ctx) {
    let case = |c: &mut Ctx, v: Value| {
        let Ok(s) = Schema::try_from(v.clone()) else { return };
        c.holds("serializing a schema and parsing the text gives the schema back, in the keyword order", v.clone(), || {
            let text = serde_json::to_string(&s).map_err(|e| (json!("text"), json!(e.to_string())))?;
            let back: Value = serde_json::from_str(&text).map_err(|e| (json!("valid JSON"), json!({"text": text, "error": e.to_string()})))?;
            if back != v {
                return Err((v.clone(), json!({"text": text, "parsed": back})));
            }
            let back2: Schema = serde_json::from_str(&text).map_err(|e| (json!("a schema"), json!(e.to_string())))?;
            if back2 != s {
                return Err((v.clone(), json!({ "parsed schema": back2.as_value() })));
            }
            let o: O = serde_json::from_str(&text).unwrap();
            let e = emitted(&v, Kind::Schema);
            if o != e {
                return Err((json!(format!("{e:?}")), json!(text)));
            }
            let pretty: O = serde_json::from_str(&serde_json::to_string_pretty(&s).unwrap()).unwrap();
            if pretty != e {
                return Err((json!(format!("{e:?}")), json!("pretty")));
            }
            if serde_json::to_value(&s).ok().as_ref() != Some(&v) {
                return Err((v.clone(), json!("to_value differs")));
            }
            Ok(json!(text))
        });
    };
    let big = json!({"$defs": {"b": true, "a": {"type": "null", "$id": "x"}}, "definitions": {"z": {}}, "a": 1, "zz": 2, "$id": "i", "$schema": "s", "title": "t", "description": "d", "type": "string", "format": "f", "properties": {"type": {"title": "x", "$id": "y", "b": 1}, "$id": true, "title": false}});
    for l in [json!(true), json!(false), json!({}), big.clone(), json!({"title": "t", "$id": "i"})] {
        for v in contexts(&l) {
            case(c, v);
        }
    }
    let mut pairs: Vec<(&str, Value)> = vec![];
    let mix = json!({"type": 1, "$id": 2, "$defs": {"type": 1, "$id": 2}, "a": [{"title": 1, "$id": 2}]});
    for k in FIRST.iter().chain(LAST).chain(&["examples", "default", "x-", "x-a", "x", "const", "enum", "", "$ref", "patternProperties", "dependentSchemas", "allOf", "-", "A", "é"]) {
        pairs.push((k, mix.clone()));
    }
    for v in combos_upto(&pairs, if c.thorough { 3 } else { 2 }) {
        case(c, v);
    }
    for k in FIRST.iter().chain(LAST).chain(&["examples", "default", "x-a"]) {
        for n in near(k) {
            case(c, json!({ n.as_str(): mix.clone() }));
            case(c, json!({ n.as_str(): mix.clone(), *k: true, "zz": {"title": 1, "$id": 2, n.as_str(): mix.clone()} }));
        }
    }
    while c.time_left() {
        let v = if c.rng.chance(1, 2) { c.rng.schema(4) } else { c.rng.schema_with(&["$id", "$schema", "title", "properties", "$defs", "definitions", "examples", "default", "x-custom", "dependentSchemas"], 3) };
        case(c, v);
    }
}

// ---------------------------------------------------------------- C19
fn names_pool() -> Vec<String> {
    ["", "a", "ab", "b", "ba", "abc", "0", "7", "-7", "12", "007", "-0", "--1", "1a", "a1", "é", "$ref", "A", "/", "~1", "x y"].iter().map(|s| s.to_string()).collect()
}
/// does the key schema let `n` be a property name (None: outside the oracle's reach)
fn key_allows(ks: &Value, defs: &Value, n: &str, depth: usize) -> Option<bool> {
    let m = match ks {
        Value::Bool(b) => return Some(*b),
        Value::Object(m) => m,
        _ => return None,
    };
    if depth == 0 {
        return None;
    }
    if let Some(a) = m.get("anyOf").and_then(Value::as_array) {
        let mut r = false;
        for o in a {
            r |= key_allows(o, defs, n, depth - 1)?;
        }
        return Some(r);
    }
    if let Some(r) = m.get("$ref").and_then(Value::as_str) {
        let name = crate::names::unescape(&crate::names::decode(r.strip_prefix("#/$defs/")?)?);
        return key_allows(defs.get(&name)?, defs, n, depth - 1);
    }
    match m.get("type").and_then(Value::as_str) {
        Some("integer") => {
            let neg = n.starts_with('-');
            let d = n.strip_prefix('-').unwrap_or(n);
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) || (d.len() > 1 && d.starts_with('0')) || n == "-0" {
                return Some(false);
            }
            match m.get("minimum").and_then(Value::as_f64) {
                Some(x) if d.parse::<f64>().unwrap() * if neg { -1.0 } else { 1.0 } < x => Some(false),
                _ => Some(true),
            }
        }
        Some("string") => {
            let mut ok = true;
            if let Some(p) = m.get("pattern") {
                ok &= pattern(p.as_str()?, n)?;
            }
            if let Some(e) = m.get("enum") {
                ok &= e.as_array()?.iter().any(|x| x.as_str() == Some(n));
            }
            Some(ok)
        }
        Some(_) => Some(false),
        None => match m.get("enum").and_then(Value::as_array) {
            Some(e) => Some(e.iter().any(|x| x.as_str() == Some(n))),
            None => Some(true),
        },
    }
}
/// does the key schema restrict the names in the sense of the property: an alternative that is neither an integer nor a string with pattern or string enum does not
fn restricts(ks: &Value, defs: &Value, top: bool) -> Option<bool> {
    let Some(m) = ks.as_object() else { return Some(false) };
    if top {
        if let Some(a) = m.get("anyOf").and_then(Value::as_array) {
            if a.iter().all(Value::is_object) {
                return a.iter().map(|o| restricts(o, defs, false)).collect::<Option<Vec<_>>>().map(|v| v.iter().all(|x| *x));
            }
        }
    }
    if let Some(r) = m.get("$ref").and_then(Value::as_str) {
        let name = r.strip_prefix("#/$defs/").and_then(crate::names::decode).map(|s| crate::names::unescape(&s))?;
        let d = defs.get(&name)?.as_object()?;
        if d.contains_key("$ref") {
            return Some(false);
        }
        return restricts(&Value::Object(d.clone()), defs, false);
    }
    Some(match m.get("type").and_then(Value::as_str) {
        Some("integer") => true,
        Some("string") => m.get("pattern").is_some_and(Value::is_string) || m.get("enum").and_then(Value::as_array).is_some_and(|a| a.iter().all(Value::is_string)),
        _ => false,
    })
}
fn map_schema(g: &mut SchemaGenerator, hash: bool) -> Schema {
    use dynty::Dyn;
    if hash {
        <HashMap<Dyn<0>, Dyn<1>>>::json_schema(g)
    } else {
        <BTreeMap<Dyn<0>, Dyn<1>>>::json_schema(g)
    }
}
fn option(c: &mut Ctx) -> Value {
    let v = match c.rng.below(16) {
        0 => json!({"type": "string"}),
        1 => json!({"type": "integer"}),
        2 => json!({"type": "integer", "minimum": 0}),
        3 => json!({"type": "integer", "minimum": *c.rng.pick(&[1, -1, -128, 5])}),
        4 => json!({"type": "string", "pattern": *c.rng.pick(&["^a", "b", "^0", "7", "ab"])}),
        5 => json!({"type": "string", "enum": [*c.rng.pick(&["a", "b", "0", "é", "$ref", ""])]}),
        6 => json!({"type": "string", "enum": ["a", "ab", "-7"]}),
        7 => json!({"type": "string", "enum": []}),
        8 => json!({"type": "string", "pattern": "^a", "enum": ["a", "b"]}),
        9 => json!({"enum": ["a", "b"]}),
        10 => json!({"type": "string", "enum": ["a", 1]}),
        11 => json!({}),
        12 => json!({"type": "null"}),
        13 => json!({"type": "integer", "minimum": 0.0}),
        14 => json!({"type": "string", "minLength": 1}),
        _ => json!({"type": ["string", "null"]}),
    };
    if c.rng.chance(1, 6) {
        let mut v = v;
        v["title"] = json!("t");
        v
    } else {
        v
    }
}
pub fn c19(c: &mut Ctx) {
    let case = |c: &mut Ctx, key: Value, refs: Vec<Value>, names: Vec<String>, val: Value, hash: bool| {
        // type 0: key, type 1: value, types 2..: referenced by the key through subschema_for (kids), replaced into the schema by name
        let mut defs = vec![
            Def { name: "Key".into(), id: "Key".into(), inline: true, base: key.clone(), ..Default::default() },
            Def { name: "Val".into(), id: "Val".into(), inline: true, base: val.clone(), ..Default::default() },
        ];
        for (i, r) in refs.iter().enumerate() {
            defs.push(Def { name: names[i].clone(), id: format!("ref{i}"), inline: false, base: r.clone(), ..Default::default() });
        }
        let input = json!({"key schema": key, "referenced": refs, "names": names, "value schema": val});
        c.holds("map schema accepts what the key schema allows", input, || {
            dynty::set(defs);
            let mut g = SchemaSettings::draft2020_12().into_generator();
            for i in 0..refs.len() {
                dynty::subschema(&mut g, 2 + i);
            }
            let m = map_schema(&mut g, hash).to_value();
            let dv = Value::Object(g.definitions().clone());
            let mut root = m.clone();
            root["$defs"] = dv.clone();
            let mut allowed = 0;
            let Some(res) = restricts(&key, &dv, true) else { return Ok(Value::Null) };
            for n in names_pool() {
                let Some(a) = key_allows(&key, &dv, &n, 5) else { continue };
                for x in [json!(null), json!("s"), json!(3)] {
                    let want = valid(&val, &x) == Some(true);
                    let got = valid(&root, &json!({ n.as_str(): x }));
                    if a || !res {
                        allowed += 1;
                        if got.is_some() && got != Some(want) {
                            return Err((json!({"name": n, "value": x, "accepted": want}), json!({"accepted": got, "map schema": m})));
                        }
                    } else if got == Some(true) && !["007", "-0"].contains(&n.as_str()) && !looks_int(&n) {
                        // every alternative restricts and the key schema does not allow the name
                        if !enum_and_pattern(&key, &dv) {
                            return Err((json!({"name": n, "accepted": false}), json!({"accepted": true, "map schema": m})));
                        }
                    }
                }
            }
            if m.get("type") != Some(&json!("object")) || valid(&root, &json!([])) == Some(true) {
                return Err((json!({"type": "object"}), m));
            }
            Ok(if allowed > 0 { m } else { Value::Null })
        });
    };
    let vals = [json!(true), json!({"type": "string"}), json!({"type": "null"}), json!(false)];
    let names = |c: &mut Ctx, n: usize| -> Vec<String> {
        let pool = ["R", "a/b", "x~y", "%41", "A", "é ü", "a b", "~1", "%2F", "a%2Fb", "a~1b", "$defs", "1"];
        let mut out: Vec<String> = vec![];
        while out.len() < n {
            let x = c.rng.pick(&pool).to_string();
            if !out.contains(&x) {
                out.push(x);
            }
        }
        out
    };
    for t in [json!(true), json!(false), json!({})] {
        case(c, t.clone(), vec![], vec![], vals[1].clone(), false);
    }
    let end = std::time::Instant::now() + std::time::Duration::from_secs(if c.thorough { 100000 } else { 8 });
    let mut i = 0;
    while c.time_left() && std::time::Instant::now() < end {
        i += 1;
        let nrefs = c.rng.below(3);
        let refs: Vec<Value> = (0..nrefs).map(|_| option(c)).collect();
        let ns = names(c, nrefs);
        let one = |c: &mut Ctx| {
            if nrefs > 0 && c.rng.chance(1, 2) {
                let j = c.rng.below(nrefs);
                json!({ "$ref": format!("#/$defs/{}", crate::names::encode(&ns[j])) })
            } else {
                option(c)
            }
        };
        let key = if c.rng.chance(1, 2) {
            let n = 1 + c.rng.below(3);
            let mut a: Vec<Value> = (0..n).map(|_| one(c)).collect();
            if c.rng.chance(1, 10) {
                a.push(json!(true));
            }
            json!({ "anyOf": a })
        } else {
            one(c)
        };
        let v = c.rng.pick(&vals).clone();
        case(c, key, refs, ns, v, i % 2 == 0);
    }
    // real key types
    macro_rules! real {
        ($($t:ty => [$($x:expr),*]),* $(,)?) => { $(
            for x in [$($x),*] {
                c.holds("map with a real key type accepts the keys it serializes to", json!({"key type": stringify!($t), "name": x}), || {
                    let s = SchemaSettings::draft2020_12().into_generator().into_root_schema_for::<BTreeMap<$t, u8>>();
                    let v = s.to_value();
                    match valid(&v, &json!({x: 1})) {
                        Some(true) if valid(&v, &json!({x: "no"})) == Some(false) => Ok(json!(x)),
                        _ => Err((json!({x: 1}), v)),
                    }
                });
            }
        )* };
    }
    real!(i8 => ["-128", "127", "0"], u8 => ["0", "255"], i64 => ["-9223372036854775808"], u64 => ["18446744073709551615"], i128 => ["-1"], u128 => ["1"], String => ["", "x", "-"],
        char => ["a"], std::num::NonZeroU8 => ["1", "255"], std::num::NonZeroI32 => ["-5", "5"], usize => ["3"], Kx => ["a", "b/c"], bool => ["true", "false"], Box<u16> => ["9"], std::rc::Rc<Kx> => ["a"]);
}
fn looks_int(n: &str) -> bool {
    let d = n.strip_prefix('-').unwrap_or(n);
    !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
}
fn enum_and_pattern(k: &Value, d: &Value) -> bool {
    fn any(v: &Value) -> bool {
        match v {
            Value::Object(m) => (m.contains_key("enum") && m.contains_key("pattern")) || m.values().any(any),
            Value::Array(a) => a.iter().any(any),
            _ => false,
        }
    }
    any(k) || any(d)
}
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Kx;
impl JsonSchema for Kx {
    fn schema_name() -> std::borrow::Cow<'static, str> {
        "K/x~ %".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"type": "string", "enum": ["a", "b/c"]})
    }
}

// ---------------------------------------------------------------- C20
/// a serializable value built from data
#[derive(Clone, Debug)]
pub enum S {
    Bool(bool),
    I64(i64),
    U64(u64),
    I128(i128),
    F64(f64),
    F32(f32),
    Char(char),
    Str(String),
    Collected(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<S>),
    Unit,
    UnitStruct,
    UnitVariant,
    Newtype(Box<S>),
    NewtypeNoName(Box<S>),
    NewtypeVariant(Box<S>),
    Seq(Vec<S>),
    Tuple(Vec<S>),
    TupleStruct(Vec<S>),
    TupleVariant(Vec<S>),
    Map(Vec<(S, S)>),
    EntryMap(Vec<(S, S)>),
    Collect(Vec<(S, S)>),
    Struct(Vec<(&'static str, S)>),
    StructVariant(Vec<(&'static str, S)>),
}
impl Serialize for S {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            S::Bool(b) => z.serialize_bool(*b),
            S::I64(n) => match n.rem_euclid(4) {
                0 if *n as i8 as i64 == *n => z.serialize_i8(*n as i8),
                1 if *n as i16 as i64 == *n => z.serialize_i16(*n as i16),
                2 if *n as i32 as i64 == *n => z.serialize_i32(*n as i32),
                _ => z.serialize_i64(*n),
            },
            S::U64(n) => match n % 4 {
                0 if *n as u8 as u64 == *n => z.serialize_u8(*n as u8),
                1 if *n as u16 as u64 == *n => z.serialize_u16(*n as u16),
                2 if *n as u32 as u64 == *n => z.serialize_u32(*n as u32),
                _ => z.serialize_u64(*n),
            },
            S::I128(n) => {
                if *n >= 0 {
                    z.serialize_u128(*n as u128)
                } else {
                    z.serialize_i128(*n)
                }
            }
            S::F64(x) => z.serialize_f64(*x),
            S::F32(x) => z.serialize_f32(*x),
            S::Char(x) => z.serialize_char(*x),
            S::Str(x) => z.serialize_str(x),
            S::Collected(x) => z.collect_str(x),
            S::Bytes(x) => z.serialize_bytes(x),
            S::None => z.serialize_none(),
            S::Some(x) => z.serialize_some(x),
            S::Unit => z.serialize_unit(),
            S::UnitStruct => z.serialize_unit_struct("Us"),
            S::UnitVariant => z.serialize_unit_variant("E", 0, "Uv"),
            S::Newtype(x) => z.serialize_newtype_struct("Nt", x),
            S::NewtypeNoName(x) => z.serialize_newtype_struct("", x),
            S::NewtypeVariant(x) => z.serialize_newtype_variant("E", 1, "Nv", x),
            S::Seq(v) => {
                let mut s = z.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?;
                for x in v {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            S::Tuple(v) => {
                let mut s = z.serialize_tuple(v.len())?;
                for x in v {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            S::TupleStruct(v) => {
                let mut s = z.serialize_tuple_struct("Ts", v.len())?;
                for x in v {
                    s.serialize_field(x)?;
                }
                s.end()
            }
            S::TupleVariant(v) => {
                let mut s = z.serialize_tuple_variant("E", 2, "Tv", v.len())?;
                for x in v {
                    s.serialize_field(x)?;
                }
                s.end()
            }
            S::Map(v) => {
                let mut s = z.serialize_map(None)?;
                for (k, x) in v {
                    s.serialize_key(k)?;
                    s.serialize_value(x)?;
                }
                s.end()
            }
            S::EntryMap(v) => {
                let mut s = z.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    s.serialize_entry(k, x)?;
                }
                s.end()
            }
            S::Collect(v) => z.collect_map(v.iter().map(|(k, x)| (k, x))),
            S::Struct(v) => {
                let mut s = z.serialize_struct("St", v.len())?;
                for (k, x) in v {
                    s.serialize_field(k, x)?;
                }
                s.end()
            }
            S::StructVariant(v) => {
                let mut s = z.serialize_struct_variant("E", 3, "Sv", v.len())?;
                for (k, x) in v {
                    s.serialize_field(k, x)?;
                }
                s.end()
            }
        }
    }
}
/// where the inferred schema lists properties, the names (along struct, map, option, newtype, tuple)
fn props_ok(schema: &Value, s: &S, j: &Value) -> Result<(), (Value, Value)> {
    match s {
        S::Some(x) => {
            // the option's schema may wrap the inner one; only a plain object is looked into
            if schema.get("anyOf").is_none() {
                props_ok(schema, x, j)
            } else {
                Ok(())
            }
        }
        S::Newtype(x) | S::NewtypeNoName(x) => props_ok(schema, x, j),
        S::Tuple(v) | S::TupleStruct(v) => {
            for (i, x) in v.iter().enumerate() {
                props_ok(&schema["prefixItems"][i], x, &j[i])?;
            }
            Ok(())
        }
        S::Map(_) | S::EntryMap(_) | S::Struct(_) => {
            let want: BTreeSet<&String> = j.as_object().unwrap().keys().collect();
            let got: BTreeSet<&String> = schema["properties"].as_object().map(|m| m.keys().collect()).unwrap_or_default();
            if want != got {
                return Err((json!(want), json!(got)));
            }
            if let S::Struct(v) = s {
                for (k, x) in v {
                    if v.iter().filter(|(n, _)| n == k).count() == 1 {
                        props_ok(&schema["properties"][*k], x, &j[*k])?;
                    }
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
const FIELDS: &[&str] = &["a", "b", "c", "type", "title", "", "é\"\\", "$ref"];
fn gen_key(c: &mut Ctx) -> S {
    match c.rng.below(9) {
        0 => S::I64(c.rng.below(300) as i64 - 150),
        1 => S::U64(c.rng.next()),
        2 => S::Char(*c.rng.pick(&['a', '"', '\\', 'é'])),
        3 => S::UnitVariant,
        4 => S::Newtype(Box::new(gen_key(c))),
        5 => S::Bool(c.rng.chance(1, 2)),
        6 => S::Collected(c.rng.pick(FIELDS).to_string()),
        _ => S::Str(c.rng.pick(&["a", "b", "c", "\"q\"", "back\\slash", "new\nline", "", "é", "1", "\u{1}"]).to_string()),
    }
}
fn gen_s(c: &mut Ctx, d: usize) -> S {
    let n = if d == 0 { 14 } else { 30 };
    let many = |c: &mut Ctx, d: usize| -> Vec<S> {
        let n = c.rng.below(4);
        (0..n).map(|_| gen_s(c, d - 1)).collect()
    };
    let pairs = |c: &mut Ctx, d: usize| -> Vec<(S, S)> {
        let n = c.rng.below(4);
        (0..n).map(|_| (gen_key(c), gen_s(c, d - 1))).collect()
    };
    let fields = |c: &mut Ctx, d: usize| -> Vec<(&'static str, S)> {
        let n = c.rng.below(4);
        let mut out: Vec<(&'static str, S)> = vec![];
        for _ in 0..n {
            let f = *c.rng.pick(FIELDS);
            if out.iter().all(|(k, _)| *k != f) {
                out.push((f, gen_s(c, d - 1)));
            }
        }
        out
    };
    match c.rng.below(n) {
        0 => S::Bool(true),
        1 => S::I64(*c.rng.pick(&[0, -1, 1, 127, -128, i64::MIN, i64::MAX, 300, -129])),
        2 => S::U64(*c.rng.pick(&[0, 1, 255, 256, u64::MAX, 65536])),
        3 => S::I128(*c.rng.pick(&[0, -5, 7])),
        4 => S::F64(*c.rng.pick(&[0.0, -1.5, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 3.0])),
        5 => S::F32(*c.rng.pick(&[0.5, f32::NAN, f32::NEG_INFINITY, 1e30])),
        6 => S::Char(*c.rng.pick(&['x', 'é', '"'])),
        7 => S::Str(c.rng.pick(FIELDS).to_string()),
        8 => S::Collected("z".into()),
        9 => S::Bytes(vec![0, 255, 7]),
        10 => S::None,
        11 => S::Unit,
        12 => S::UnitStruct,
        13 => S::UnitVariant,
        14 | 15 => S::Some(Box::new(gen_s(c, d - 1))),
        16 => S::Newtype(Box::new(gen_s(c, d - 1))),
        17 => S::NewtypeVariant(Box::new(gen_s(c, d - 1))),
        18 | 19 | 20 => S::Seq(many(c, d)),
        21 => S::Tuple(many(c, d)),
        22 => S::TupleStruct(many(c, d)),
        23 => S::TupleVariant(many(c, d)),
        24 => S::Map(pairs(c, d)),
        25 => S::EntryMap(pairs(c, d)),
        26 => S::Collect(pairs(c, d)),
        27 => S::StructVariant(fields(c, d)),
        28 => S::NewtypeNoName(Box::new(gen_s(c, d - 1))),
        _ => S::Struct(fields(c, d)),
    }
}
pub fn c20(c: &mut Ctx) {
    let case = |c: &mut Ctx, s: S| {
        let Ok(j) = serde_json::to_value(&s) else { return };
        let Ok(text) = serde_json::to_string(&s) else { return };
        let j = match serde_json::from_str::<Value>(&text) {
            Ok(t) if t == j => j,
            _ => j,
        };
        c.holds("the schema inferred from a value accepts it", json!({"value": format!("{s:?}"), "json": j}), || {
            for which in 0..3 {
                let mut g = SchemaSettings::draft2020_12().with(|s| if which == 1 { s.contract = Contract::Serialize }).into_generator();
                let schema = if which == 2 { g.into_root_schema_for_value(&s) } else { g.root_schema_for_value(&s) };
                let schema = schema.map_err(|e| (json!("a schema"), json!(e.to_string())))?.to_value();
                if schema.get("examples") != Some(&json!([j])) {
                    return Err((json!([j]), json!({"schema": schema, "examples": schema.get("examples")})));
                }
                match valid(&schema, &j) {
                    Some(true) => {}
                    r => return Err((json!("accepts the value"), json!({"schema": schema, "accepts": r}))),
                }
                props_ok(&schema, &s, &j)?;
                if let (S::Seq(v), Value::Array(a)) = (&s, &j) {
                    // any sequence of the elements is accepted as well
                    if v.len() > 1 {
                        for x in a {
                            if valid(&schema, &json!([x, x])) == Some(false) {
                                return Err((json!({"accepts": [x, x]}), schema));
                            }
                        }
                    }
                }
                if which == 2 {
                    return Ok(json!([j, schema]));
                }
            }
            unreachable!()
        });
    };
    // pairs of leaves and small containers in a sequence, a map and a struct
    let leaves = vec![
        S::Bool(true), S::I64(-1), S::F64(0.5), S::F64(f64::NAN), S::F32(f32::INFINITY), S::Str("x".into()), S::Char('c'), S::None, S::Unit, S::UnitStruct, S::UnitVariant, S::Some(Box::new(S::Bool(true))),
        S::Some(Box::new(S::None)), S::Bytes(vec![1]), S::Seq(vec![]), S::Seq(vec![S::None]), S::Tuple(vec![]), S::Tuple(vec![S::Unit]), S::Map(vec![]), S::Struct(vec![]), S::Struct(vec![("a", S::Unit)]),
        S::Map(vec![(S::Str("\"k\\".into()), S::I64(1))]), S::Map(vec![(S::I64(4), S::None)]), S::Collect(vec![(S::Str("k".into()), S::I64(1))]), S::Newtype(Box::new(S::Struct(vec![]))), S::NewtypeVariant(Box::new(S::Unit)),
        S::StructVariant(vec![]), S::TupleVariant(vec![]), S::TupleStruct(vec![S::Unit]), S::Some(Box::new(S::Struct(vec![("b", S::I64(1))]))), S::Some(Box::new(S::Seq(vec![S::Bool(false)]))), S::Collected("q".into()),
        S::Some(Box::new(S::Collect(vec![]))),
    ];
    for a in &leaves {
        case(c, a.clone());
        case(c, S::Some(Box::new(a.clone())));
        case(c, S::Newtype(Box::new(a.clone())));
        for b in &leaves {
            case(c, S::Seq(vec![a.clone(), b.clone()]));
            case(c, S::Seq(vec![b.clone(), a.clone(), b.clone()]));
            case(c, S::Tuple(vec![a.clone(), b.clone()]));
            case(c, S::Map(vec![(S::Str("p".into()), a.clone()), (S::Str("q".into()), b.clone())]));
            case(c, S::Collect(vec![(S::Str("p".into()), a.clone()), (S::Str("q".into()), b.clone()), (S::Str("r".into()), a.clone())]));
            case(c, S::Struct(vec![("p", a.clone()), ("q", b.clone())]));
        }
    }
    while c.time_left() {
        let s = gen_s(c, 4);
        case(c, s);
    }
}

// ---------------------------------------------------------------- C22
fn schema_of<T: JsonSchema + ?Sized>() -> Value {
    let mut g = SchemaSettings::draft2020_12().into_generator();
    T::json_schema(&mut g).to_value()
}
struct El<const N: usize>;
impl<const N: usize> JsonSchema for El<N> {
    fn schema_name() -> std::borrow::Cow<'static, str> {
        format!("El{N}").into()
    }
    fn inline_schema() -> bool {
        true
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"const": N})
    }
}
pub fn c22(c: &mut Ctx) {
    let range = |c: &mut Ctx, name: &str, s: Value, min: i128, max: Option<u128>, nonzero: bool| {
        c.holds("integer schema admits exactly the range", json!({ "type": name }), || {
            if s.get("type") != Some(&json!("integer")) {
                return Err((json!({"type": "integer"}), s));
            }
            let as_i = |k: &str| -> Option<i128> { s.get(k).and_then(|v| v.as_i64().map(i128::from).or(v.as_u64().map(i128::from))) };
            if s.get("minimum").is_some() {
                let lo = if nonzero && min == 0 { 1 } else { min };
                if as_i("minimum") != Some(lo) {
                    return Err((json!({ "minimum": lo as i64 }), s));
                }
            } else if min == 0 {
                return Err((json!({"minimum": 0}), s));
            }
            if s.get("maximum").is_some() && as_i("maximum") != max.map(|m| m as i128) {
                return Err((json!("maximum"), s));
            }
            let mut xs: Vec<Value> = vec![json!(1), json!(2), json!(100)];
            if let Ok(m) = i64::try_from(min) {
                xs.extend([json!(m), json!(m + 1)]);
            }
            if let Some(Ok(m)) = max.map(u64::try_from) {
                xs.extend([json!(m), json!(m - 1)]);
            }
            if min < 0 {
                xs.push(json!(-1));
            }
            for x in xs {
                if nonzero && x == json!(0) {
                    continue;
                }
                if valid(&s, &x) != Some(true) {
                    return Err((json!({ "accepts": x }), s));
                }
            }
            let mut no = vec![json!("1"), json!(null), json!(1.5), json!([])];
            if nonzero {
                no.push(json!(0));
            }
            if min == 0 {
                no.push(json!(-1));
            }
            if s.get("maximum").is_some() {
                no.push(json!(max.unwrap() as i64 + 1));
            }
            if s.get("minimum").is_some() {
                no.push(json!(min as i64 - 1));
            }
            for x in no {
                if valid(&s, &x) != Some(false) {
                    return Err((json!({ "rejects": x }), s));
                }
            }
            if let Some(f) = s.get("format").and_then(Value::as_str) {
                let _ = f;
            }
            Ok(s)
        });
    };
    macro_rules! ints {
        ($($t:ident $nz:ident)*) => { $(
            range(c, stringify!($t), schema_of::<$t>(), $t::MIN as i128, Some($t::MAX as u128), false);
            range(c, stringify!($nz), schema_of::<std::num::$nz>(), $t::MIN as i128, Some($t::MAX as u128), true);
            range(c, concat!("Wrapping ", stringify!($t)), schema_of::<std::num::Wrapping<$t>>(), $t::MIN as i128, Some($t::MAX as u128), false);
        )* };
    }
    ints!(i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 i128 NonZeroI128 isize NonZeroIsize u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64 u128 NonZeroU128 usize NonZeroUsize);
    macro_rules! atomics {
        ($($a:ident $t:ident)*) => { $( range(c, stringify!($a), schema_of::<std::sync::atomic::$a>(), $t::MIN as i128, Some($t::MAX as u128), false); )* };
    }
    atomics!(AtomicI8 i8 AtomicI16 i16 AtomicI32 i32 AtomicI64 i64 AtomicIsize isize AtomicU8 u8 AtomicU16 u16 AtomicU32 u32 AtomicU64 u64 AtomicUsize usize);
    let other = [("f32", schema_of::<f32>(), "number"), ("f64", schema_of::<f64>(), "number"), ("bool", schema_of::<bool>(), "boolean"), ("()", schema_of::<()>(), "null"), ("str", schema_of::<str>(), "string"), ("String", schema_of::<String>(), "string"), ("char", schema_of::<char>(), "string")];
    for (n, s, t) in other {
        c.holds("primitive schema has the type", json!({ "type": n }), || {
            if s.get("type") != Some(&json!(t)) {
                return Err((json!(t), s));
            }
            let good: Vec<Value> = match t {
                "number" => vec![json!(0), json!(-1.5), json!(1e300)],
                "boolean" => vec![json!(true), json!(false)],
                "null" => vec![json!(null)],
                _ => vec![json!("a"), json!("é")],
            };
            for g in good {
                if valid(&s, &g) != Some(true) {
                    return Err((json!({ "accepts": g }), s));
                }
            }
            if n == "char" && (valid(&s, &json!("")) != Some(false) || valid(&s, &json!("ab")) != Some(false)) {
                return Err((json!("one character"), s));
            }
            Ok(s)
        });
    }
    let fixed = |c: &mut Ctx, name: String, s: Value, n: usize, tuple: bool| {
        c.holds("fixed-size schema admits exactly n items of the element types", json!({ "type": name }), || {
            if s.get("type") != Some(&json!("array")) {
                return Err((json!("array"), s));
            }
            let item = |i: usize| json!(if tuple { i } else { 77 });
            for len in [n.saturating_sub(1), n, n + 1] {
                let a: Vec<Value> = (0..len).map(item).collect();
                if valid(&s, &Value::Array(a.clone())) != Some(len == n) {
                    return Err((json!({"accepts": a, "is": len == n}), s));
                }
            }
            for bad in 0..n {
                let a: Vec<Value> = (0..n).map(|i| if i == bad { json!("wrong") } else { item(i) }).collect();
                if valid(&s, &Value::Array(a.clone())) != Some(false) {
                    return Err((json!({ "rejects": a }), s));
                }
            }
            if n > 0 && (s.get("minItems") != Some(&json!(n)) || s.get("maxItems") != Some(&json!(n))) {
                return Err((json!({"minItems": n, "maxItems": n}), s));
            }
            if tuple && s["prefixItems"].as_array().map(Vec::len) != Some(n) {
                return Err((json!({ "prefixItems": n }), s));
            }
            Ok(s)
        });
    };
    macro_rules! arrays { ($($n:literal)*) => { $( fixed(c, format!("[El; {}]", $n), schema_of::<[El<77>; $n]>(), $n, false); )* } }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    macro_rules! tuples {
        ($($n:literal: $($i:literal)*;)*) => { $( fixed(c, format!("tuple of {}", $n), schema_of::<($(El<$i>,)*)>(), $n, true); )* };
    }
    tuples! {
        1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8; 10: 0 1 2 3 4 5 6 7 8 9;
        11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11; 13: 0 1 2 3 4 5 6 7 8 9 10 11 12; 14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13; 15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14;
        16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;
    }
    let _ = Map::new();
}
