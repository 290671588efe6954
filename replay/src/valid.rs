//! A small JSON Schema (2020-12) validator for the keywords the checks need. `None`: a keyword outside its reach.
use serde_json::Value;

pub const ANNOT: &[&str] = &["title", "description", "default", "examples", "example", "deprecated", "readOnly", "writeOnly", "format", "$schema", "$defs", "definitions", "$comment", "x-id", "nullable"];

pub struct V<'a> {
    pub root: &'a Value,
}
fn type_ok(t: &str, x: &Value) -> bool {
    match (t, x) {
        ("null", Value::Null) | ("boolean", Value::Bool(_)) | ("string", Value::String(_)) | ("array", Value::Array(_)) | ("object", Value::Object(_)) | ("number", Value::Number(_)) => true,
        ("integer", Value::Number(n)) => !n.is_f64() || n.as_f64().unwrap().fract() == 0.0,
        _ => false,
    }
}
/// numeric equality as JSON Schema defines it
pub fn eqv(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || (x.as_f64() == y.as_f64() && (x.is_f64() || y.is_f64())),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eqv(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| eqv(p, q))),
        _ => a == b,
    }
}
fn num(v: &Value) -> Option<f64> {
    v.as_f64()
}
fn cmp(a: &Value, b: &Value) -> Option<std::cmp::Ordering> {
    if let (Some(x), Some(y)) = (a.as_i64(), b.as_i64()) {
        return Some(x.cmp(&y));
    }
    if let (Some(x), Some(y)) = (a.as_u64(), b.as_u64()) {
        return Some(x.cmp(&y));
    }
    num(a)?.partial_cmp(&num(b)?)
}
/// the patterns this code base generates for keys, plus literal prefixes `^abc`
pub fn pattern(p: &str, s: &str) -> Option<bool> {
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    match p {
        r"^\d+$" => Some(digits(s)),
        r"^-?\d+$" => Some(digits(s.strip_prefix('-').unwrap_or(s))),
        r"^(?:-?\d+)$" => Some(digits(s.strip_prefix('-').unwrap_or(s))),
        _ => {
            let (p, anchored) = match p.strip_prefix('^') {
                Some(p) => (p, true),
                None => (p, false),
            };
            if p.chars().all(|c| c.is_alphanumeric() || c == ' ' || c == '_') {
                Some(if anchored { s.starts_with(p) } else { s.contains(p) })
            } else {
                None
            }
        }
    }
}
impl<'a> V<'a> {
    pub fn ok(&self, s: &Value, x: &Value) -> Option<bool> {
        self.go(s, x, 64)
    }
    fn go(&self, s: &Value, x: &Value, fuel: usize) -> Option<bool> {
        if fuel == 0 {
            return None;
        }
        let m = match s {
            Value::Bool(b) => return Some(*b),
            Value::Object(m) => m,
            _ => return None,
        };
        let mut r = true;
        for (k, v) in m {
            let ok = match k.as_str() {
                k if ANNOT.contains(&k) || k.starts_with("x-") => true,
                "$ref" => {
                    let p = v.as_str()?.strip_prefix('#')?;
                    self.go(self.root.pointer(p)?, x, fuel - 1)?
                }
                "type" => match v {
                    Value::String(t) => type_ok(t, x),
                    Value::Array(a) => a.iter().any(|t| t.as_str().is_some_and(|t| type_ok(t, x))),
                    _ => return None,
                },
                "const" => eqv(v, x),
                "enum" => v.as_array()?.iter().any(|e| eqv(e, x)),
                "allOf" => self.all(v.as_array()?, x, fuel)?.iter().all(|b| *b),
                "anyOf" => self.all(v.as_array()?, x, fuel)?.iter().any(|b| *b),
                "oneOf" => self.all(v.as_array()?, x, fuel)?.iter().filter(|b| **b).count() == 1,
                "not" => !self.go(v, x, fuel - 1)?,
                "if" => {
                    let c = self.go(v, x, fuel - 1)?;
                    match m.get(if c { "then" } else { "else" }) {
                        Some(t) => self.go(t, x, fuel - 1)?,
                        None => true,
                    }
                }
                "then" | "else" => true,
                "minimum" => !x.is_number() || cmp(x, v)?.is_ge(),
                "maximum" => !x.is_number() || cmp(x, v)?.is_le(),
                "minLength" => x.as_str().map_or(true, |s| s.chars().count() as u64 >= v.as_u64().unwrap_or(0)),
                "maxLength" => x.as_str().map_or(true, |s| s.chars().count() as u64 <= v.as_u64().unwrap_or(0)),
                "pattern" => match x.as_str() {
                    Some(s) => pattern(v.as_str()?, s)?,
                    None => true,
                },
                "minItems" => x.as_array().map_or(true, |a| a.len() as u64 >= v.as_u64().unwrap_or(0)),
                "maxItems" => x.as_array().map_or(true, |a| a.len() as u64 <= v.as_u64().unwrap_or(0)),
                "minProperties" => x.as_object().map_or(true, |a| a.len() as u64 >= v.as_u64().unwrap_or(0)),
                "required" => match x {
                    Value::Object(o) => v.as_array()?.iter().all(|n| n.as_str().is_some_and(|n| o.contains_key(n))),
                    _ => true,
                },
                "prefixItems" => match x {
                    Value::Array(a) => {
                        let mut r = true;
                        for (e, s) in a.iter().zip(v.as_array()?) {
                            r &= self.go(s, e, fuel - 1)?;
                        }
                        r
                    }
                    _ => true,
                },
                "items" => match x {
                    Value::Array(a) => {
                        let n = m.get("prefixItems").and_then(Value::as_array).map_or(0, Vec::len);
                        let mut r = true;
                        for e in a.iter().skip(n) {
                            r &= self.go(v, e, fuel - 1)?;
                        }
                        r
                    }
                    _ => true,
                },
                "properties" => match x {
                    Value::Object(o) => {
                        let mut r = true;
                        for (n, s) in v.as_object()? {
                            if let Some(e) = o.get(n) {
                                r &= self.go(s, e, fuel - 1)?;
                            }
                        }
                        r
                    }
                    _ => true,
                },
                "patternProperties" => match x {
                    Value::Object(o) => {
                        let mut r = true;
                        for (p, s) in v.as_object()? {
                            for (n, e) in o {
                                if pattern(p, n)? {
                                    r &= self.go(s, e, fuel - 1)?;
                                }
                            }
                        }
                        r
                    }
                    _ => true,
                },
                "additionalProperties" => match x {
                    Value::Object(o) => {
                        let mut r = true;
                        for (n, e) in o {
                            if m.get("properties").and_then(Value::as_object).is_some_and(|p| p.contains_key(n)) {
                                continue;
                            }
                            let mut hit = false;
                            for (p, _) in m.get("patternProperties").and_then(Value::as_object).into_iter().flatten() {
                                hit |= pattern(p, n)?;
                            }
                            if !hit {
                                r &= self.go(v, e, fuel - 1)?;
                            }
                        }
                        r
                    }
                    _ => true,
                },
                "propertyNames" => match x {
                    Value::Object(o) => {
                        let mut r = true;
                        for n in o.keys() {
                            r &= self.go(v, &Value::String(n.clone()), fuel - 1)?;
                        }
                        r
                    }
                    _ => true,
                },
                _ => return None,
            };
            r &= ok;
        }
        Some(r)
    }
    fn all(&self, a: &[Value], x: &Value, fuel: usize) -> Option<Vec<bool>> {
        a.iter().map(|s| self.go(s, x, fuel - 1)).collect()
    }
}
pub fn valid(s: &Value, x: &Value) -> Option<bool> {
    V { root: s }.ok(s, x)
}
