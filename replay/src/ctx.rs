//! Search context: deterministic PRNG, bounded-exhaustive and random generators, bookkeeping.
use serde_json::{json, Map, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub rng: Rng,
    pub deadline: Instant,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
    pub out: String,
    pub known: Vec<String>,
}

pub struct Fail {
    pub what: String,
    pub input: Value,
    pub expected: Value,
    pub got: Value,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, secs: u64, out: &str) -> Self {
        Ctx {
            prop: prop.into(),
            thorough,
            rng: Rng(seed.wrapping_mul(0x1234567).wrapping_add(77)),
            deadline: Instant::now() + Duration::from_secs(secs),
            evaluations: 0,
            nontrivial: HashSet::new(),
            samples: vec![],
            out: out.into(),
            known: vec![],
        }
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    fn note<T: Hash>(&mut self, input: &T, nontrivial: bool, show: impl FnOnce() -> Value) {
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            input.hash(&mut h);
            if self.nontrivial.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evaluations.is_power_of_two())) {
                self.samples.push(show());
            }
        }
    }
    /// one case: run `f`, compare with `expected`
    pub fn eq(&mut self, what: &str, input: Value, expected: Value, f: impl FnOnce() -> Value) {
        let got = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => v,
            Err(e) => json!({ "panic": panic_text(&e) }),
        };
        let nt = got != input && expected != Value::Null;
        self.note(&(what, input.to_string()), nt, || json!({ "case": what, "input": input, "result": got }));
        if !same(&got, &expected) {
            self.fail(Fail { what: what.into(), input, expected, got });
        }
    }
    /// one case checked by a predicate returning a description of what is wrong
    pub fn holds(&mut self, what: &str, input: Value, f: impl FnOnce() -> Result<Value, (Value, Value)>) {
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => v,
            Err(e) => Err((json!("no panic"), json!({ "panic": panic_text(&e) }))),
        };
        match r {
            Ok(v) => {
                let nt = v != Value::Null;
                self.note(&(what, input.to_string()), nt, || json!({ "case": what, "input": input, "result": v }))
            }
            Err((expected, got)) => self.fail(Fail { what: what.into(), input, expected, got }),
        }
    }
    pub fn fail(&mut self, f: Fail) -> ! {
        let doc = json!({
            "property": self.prop, "violated": f.what, "input": f.input, "expected": f.expected, "got": f.got,
            "found_by": "concrete search on the real code (replay crate)", "evaluations_before": self.evaluations,
        });
        std::fs::write(&self.out, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        self.stats();
        println!("FOUND {}: {}", self.prop, f.what);
        std::process::exit(10)
    }
    pub fn stats(&self) {
        let s = json!({ "evaluations": self.evaluations, "distinct_nontrivial": self.nontrivial.len(), "samples": self.samples, "known": self.known });
        std::fs::write(format!("{}.stats", self.out), s.to_string()).unwrap();
    }
}
/// equality of JSON values, numbers compared as numbers of the same JSON text class
pub fn same(a: &Value, b: &Value) -> bool {
    a == b
}
fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

pub const SUB1: &[&str] = &["not", "if", "then", "else", "contains", "additionalProperties", "propertyNames", "additionalItems", "unevaluatedProperties", "unevaluatedItems", "contentSchema"];
pub const SUBARR: &[&str] = &["allOf", "anyOf", "oneOf", "prefixItems"];
pub const SUBOBJ: &[&str] = &["properties", "patternProperties", "dependentSchemas", "$defs", "definitions"];
pub const OTHER: &[&str] = &[
    "$ref", "$schema", "$id", "type", "format", "enum", "const", "example", "examples", "default", "nullable", "required", "title", "description", "pattern", "minItems", "maxItems",
    "minimum", "maximum", "deprecated", "readOnly", "writeOnly", "x-custom", "dependentRequired", "additionalItem", "Not", "allof", "",
];

/// every keyword
pub fn keywords() -> Vec<&'static str> {
    let mut v: Vec<&str> = vec![];
    v.extend(SUB1);
    v.extend(SUBARR);
    v.push("items");
    v.extend(SUBOBJ);
    v.extend(OTHER);
    v
}
pub const NAMES: &[&str] = &["a", "b", "c", "type", "$ref", "properties", "not", "allOf", "", "é/~%", "const"];
pub const TYPES: &[&str] = &["null", "string", "object", "array", "number", "integer", "boolean"];
pub const FORMATS: &[&str] = &["date", "uuid", "duration", "custom", "other", "date-time", "regex", "", "time", "ipv4"];
pub const METAS: &[&str] = &["http://json-schema.org/draft-07/schema#", "https://json-schema.org/draft/2019-09/schema", "https://json-schema.org/draft/2020-12/schema", "https://spec.openapis.org/oas/3.0/schema/2021-09-28", "http://unknown", ""];

impl Rng {
    pub fn junk(&mut self, depth: usize) -> Value {
        match self.below(10) {
            0 => Value::Null,
            1 => json!(true),
            2 => json!(false),
            3 => json!(self.below(5)),
            4 => json!(-1.5),
            5 => json!(""),
            6 => json!(*self.pick(TYPES)),
            7 => json!(*self.pick(NAMES)),
            8 if depth > 0 => Value::Array((0..self.below(3)).map(|_| self.junk(depth - 1)).collect()),
            9 if depth > 0 => {
                let mut m = Map::new();
                for _ in 0..self.below(3) {
                    let kw = keywords();
                    m.insert(self.pick(&kw).to_string(), self.junk(depth - 1));
                }
                Value::Object(m)
            }
            _ => json!([]),
        }
    }
    /// a well-shaped value for a keyword (sometimes a badly shaped one)
    pub fn kwval(&mut self, k: &str, depth: usize) -> Value {
        if self.chance(1, 12) {
            return self.junk(2);
        }
        if SUB1.contains(&k) {
            return self.schema(depth.saturating_sub(1));
        }
        if SUBARR.contains(&k) || (k == "items" && self.chance(1, 2)) {
            let n = self.below(4);
            return Value::Array((0..n).map(|_| if self.chance(1, 15) { self.junk(1) } else { self.schema(depth.saturating_sub(1)) }).collect());
        }
        if k == "items" {
            return self.schema(depth.saturating_sub(1));
        }
        if SUBOBJ.contains(&k) {
            let mut m = Map::new();
            for _ in 0..self.below(4) {
                let n = self.pick(NAMES).to_string();
                let v = if self.chance(1, 15) { self.junk(1) } else { self.schema(depth.saturating_sub(1)) };
                m.insert(n, v);
            }
            return Value::Object(m);
        }
        match k {
            "type" => {
                if self.chance(1, 2) {
                    json!(*self.pick(TYPES))
                } else {
                    let n = self.below(4);
                    Value::Array((0..n).map(|_| json!(*self.pick(TYPES))).collect())
                }
            }
            "format" => json!(*self.pick(FORMATS)),
            "$schema" => json!(*self.pick(METAS)),
            "$ref" => json!(format!("#/$defs/{}", self.pick(NAMES))),
            "enum" | "examples" => {
                let n = self.below(4);
                Value::Array((0..n).map(|_| self.junk(1)).collect())
            }
            "required" => {
                let n = self.below(3);
                Value::Array((0..n).map(|_| json!(*self.pick(NAMES))).collect())
            }
            "title" | "description" | "pattern" | "$id" => json!(*self.pick(NAMES)),
            "const" | "default" | "example" | "x-custom" => self.junk(2),
            _ => self.junk(1),
        }
    }
    pub fn schema(&mut self, depth: usize) -> Value {
        if self.chance(1, if depth == 0 { 2 } else { 6 }) {
            return json!(self.chance(1, 2));
        }
        let kw = keywords();
        let n = if depth == 0 { self.below(3) } else { self.below(5) };
        let mut m = Map::new();
        for _ in 0..n {
            let mut k = *self.pick(&kw);
            if depth == 0 {
                k = *self.pick(OTHER);
            }
            let v = self.kwval(k, depth);
            let k = self.almost(k);
            m.insert(k, v);
        }
        Value::Object(m)
    }
    /// mostly the keyword itself, now and then a key that only resembles it
    fn almost(&mut self, k: &str) -> String {
        if k.is_empty() || !self.chance(1, 16) {
            return k.to_string();
        }
        let v = near(k);
        self.pick(&v).clone()
    }
    /// a schema biased towards the given keywords
    pub fn schema_with(&mut self, focus: &[&str], depth: usize) -> Value {
        let mut v = self.schema(depth);
        if let Value::Object(m) = &mut v {
            for _ in 0..1 + self.below(3) {
                let k = *self.pick(focus);
                let x = if (SUB1.contains(&k) || k == "items") && self.chance(3, 4) && depth > 0 {
                    self.schema_with(focus, depth - 1)
                } else if SUBARR.contains(&k) && self.chance(3, 4) && depth > 0 {
                    let n = self.below(4);
                    Value::Array((0..n).map(|_| self.schema_with(focus, depth - 1)).collect())
                } else if SUBOBJ.contains(&k) && self.chance(3, 4) && depth > 0 {
                    let n = self.below(3);
                    Value::Object((0..n).map(|_| (self.pick(NAMES).to_string(), self.schema_with(focus, depth - 1))).collect())
                } else {
                    self.kwval(k, depth)
                };
                m.insert(k.to_string(), x);
            }
            if depth > 0 && self.chance(1, 2) {
                // nest under a random subschema keyword
                let k = match self.below(3) {
                    0 => *self.pick(SUB1),
                    1 => *self.pick(SUBARR),
                    _ => *self.pick(SUBOBJ),
                };
                let s = self.schema_with(focus, depth - 1);
                let x = if SUB1.contains(&k) {
                    s
                } else if SUBARR.contains(&k) {
                    json!([s])
                } else {
                    json!({ "a": s })
                };
                m.insert(k.to_string(), x);
            }
        }
        v
    }
    pub fn string(&mut self, alphabet: &[char], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}
/// `leaf` placed at each kind of subschema position (and at a non-position)
/// keys that resemble k
pub fn near(k: &str) -> Vec<String> {
    let c: Vec<char> = k.chars().collect();
    let n = c.len();
    let s = |x: &[char]| x.iter().collect::<String>();
    let mut r = vec![k.to_uppercase(), k.to_lowercase(), format!("{k} "), format!(" {k}"), format!("{k}s"), format!("{k}\u{0}"), format!("x-{k}"), format!("${k}"), s(&c[1..]), s(&c[..n - 1])];
    let mut t = c.clone();
    for i in 0..n {
        if c[i].is_ascii_alphabetic() {
            t[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            r.push(s(&t));
            break;
        }
    }
    r.retain(|x| x != k);
    r.dedup();
    r
}
pub fn contexts(leaf: &Value) -> Vec<Value> {
    let mut out = vec![leaf.clone()];
    for k in SUB1 {
        out.push(json!({ *k: leaf }));
    }
    for k in SUBARR {
        out.push(json!({ *k: [true, leaf, leaf] }));
    }
    out.push(json!({ "items": leaf }));
    out.push(json!({ "items": [leaf, leaf] }));
    for k in SUBOBJ {
        out.push(json!({ *k: { "a": leaf, "type": leaf } }));
    }
    for k in OTHER {
        out.push(json!({ *k: leaf }));
        out.push(json!({ *k: [leaf] }));
        out.push(json!({ *k: { "a": leaf } }));
    }
    for k in SUBARR {
        out.push(json!({ *k: leaf }));
        out.push(json!({ *k: { "a": leaf } }));
    }
    for k in SUBOBJ {
        out.push(json!({ *k: [leaf] }));
    }
    for k in SUB1 {
        out.push(json!({ *k: [leaf] }));
    }
    out
}
/// all objects with exactly `n` of the (key, value) pairs with distinct keys
pub fn combos(pairs: &[(&str, Value)], n: usize) -> Vec<Value> {
    fn go(pairs: &[(&str, Value)], n: usize, cur: &mut Map<String, Value>, out: &mut Vec<Value>) {
        if n == 0 {
            out.push(Value::Object(cur.clone()));
            return;
        }
        for (i, (k, v)) in pairs.iter().enumerate() {
            if !cur.contains_key(*k) {
                cur.insert(k.to_string(), v.clone());
                go(&pairs[i + 1..], n - 1, cur, out);
                cur.remove(*k);
            }
        }
    }
    let mut out = vec![];
    go(pairs, n, &mut Map::new(), &mut out);
    out
}
pub fn combos_upto(pairs: &[(&str, Value)], n: usize) -> Vec<Value> {
    (0..=n).flat_map(|i| combos(pairs, i)).collect()
}
