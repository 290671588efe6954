//! C02..C04: names, references, definitions
use crate::ctx::*;
use crate::dynty::{self, Def};
use schemars::generate::{Contract, SchemaSettings};
use schemars::{Schema, SchemaGenerator};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

/// RFC 3986 percent-decoding of every "%XX"; None when the bytes are not UTF-8
pub fn decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let hex = |c: u8| (c as char).to_digit(16);
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                out.push((h * 16 + l) as u8);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8(out).ok()
}
pub fn unescape(s: &str) -> String {
    s.replace("~1", "/").replace("~0", "~")
}
/// the encoding the property asks for, character by character
pub fn encode(s: &str) -> String {
    let mut out = String::new();
    for b in s.bytes() {
        match b {
            b'~' => out.push_str("~0"),
            b'/' => out.push_str("~1"),
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=' | b':' | b'@' | b'?' => out.push(b as char),
            _ => out.push_str(&format!("%{b:02X}")),
        }
    }
    out
}
fn legal_fragment(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).all(|i| match b[i] {
        b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => true,
        b'%' => i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit(),
        c => b"-._~!$&'()*+,;=:@?".contains(&c),
    })
}
fn nest(tokens: &[String], leaf: Value) -> Value {
    match tokens.split_first() {
        None => leaf,
        Some((t, r)) => json!({ t.as_str(): nest(r, leaf) }),
    }
}
pub fn c02(c: &mut Ctx) {
    let name_case = |c: &mut Ctx, name: &str| {
        c.holds("definition name survives encoding and decoding", json!(name), || {
            dynty::set(vec![Def { name: name.into(), id: "i".into(), base: json!({"x-id": "i"}), ..Default::default() }]);
            let mut g = SchemaGenerator::default();
            let r = dynty::subschema(&mut g, 0).to_value();
            let Some(enc) = r.get("$ref").and_then(Value::as_str).and_then(|r| r.strip_prefix("#/$defs/")).map(str::to_owned) else { return Err((json!("#/$defs/..."), r)) };
            if !legal_fragment(&enc) || enc.contains('/') {
                return Err((json!("only characters legal in a URI fragment, no raw '/'"), json!(enc)));
            }
            if decode(&enc).map(|d| unescape(&d)).as_deref() != Some(name) {
                return Err((json!(name), json!({"encoded": enc, "decoded": decode(&enc).map(|d| unescape(&d))})));
            }
            let doc = json!({"$defs": {name: {"x-id": "i"}, "other": 1}});
            let s = Schema::try_from(doc.clone()).unwrap();
            let p = format!("#/$defs/{enc}");
            if s.pointer(&p) != Some(&json!({"x-id": "i"})) {
                return Err((json!("pointer finds the definition"), json!({"pointer": p, "found": s.pointer(&p)})));
            }
            let mut s2 = s.clone();
            if s2.pointer_mut(&p).map(|v| v.clone()) != Some(json!({"x-id": "i"})) {
                return Err((json!("pointer_mut finds the definition"), json!(p)));
            }
            Ok(json!(enc))
        });
    };
    let ptr_case = |c: &mut Ctx, text: &str| {
        c.holds("pointer lookup decodes exactly the two-digit escapes", json!(text), || {
            for frag in [true, false] {
                let full = format!("{}/{text}", if frag { "#" } else { "" });
                let dec = if frag { decode(&full[1..]) } else { Some(full.clone()) };
                match dec {
                    None => {
                        let s = Schema::try_from(json!({ text: 1 })).unwrap();
                        if s.pointer(&full).is_some() || s.clone().pointer_mut(&full).is_some() {
                            return Err((json!(null), json!({"pointer": full, "found": s.pointer(&full)})));
                        }
                        // what is found must not depend on the document: an object with every key missing nothing
                    }
                    Some(d) => {
                        let tokens: Vec<String> = d[1..].split('/').map(unescape).collect();
                        let mut s = Schema::try_from(nest(&tokens, json!("leaf"))).unwrap();
                        if s.pointer(&full) != Some(&json!("leaf")) {
                            return Err((json!({"tokens": tokens}), json!({"pointer": full, "found": s.pointer(&full)})));
                        }
                        if s.pointer_mut(&full).map(|v| v.clone()) != Some(json!("leaf")) {
                            return Err((json!({"tokens": tokens}), json!({"pointer_mut": full})));
                        }
                    }
                }
            }
            Ok(json!(decode(text)))
        });
    };
    name_case(c, "");
    ptr_case(c, "");
    let mut chars: Vec<char> = (0u8..128).map(|b| b as char).collect();
    chars.extend(['é', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '🚀', '\u{10ffff}']);
    for a in &chars {
        name_case(c, &a.to_string());
        for b in &chars {
            name_case(c, &format!("{a}{b}"));
        }
    }
    let hot = ['~', '/', '%', '0', '1', '2', 'F', 'g', '+', ' ', 'é', '#', '"'];
    for a in hot {
        for b in hot {
            for d in hot {
                name_case(c, &format!("{a}{b}{d}"));
                ptr_case(c, &format!("{a}{b}{d}"));
                ptr_case(c, &format!("%{a}{b}{d}"));
            }
        }
    }
    // every pair of characters after '%'
    for a in &chars {
        for b in &chars {
            ptr_case(c, &format!("%{a}{b}"));
            ptr_case(c, &format!("x%{a}{b}y"));
        }
    }
    for a in 0..=255u8 {
        ptr_case(c, &format!("%{a:02x}"));
        for b in [0x80u8, 0xbf, 0xc3, 0x7f, 0x25, 0x41] {
            ptr_case(c, &format!("%{a:02X}%{b:02x}"));
            ptr_case(c, &format!("é%{a:02X}%{b:02x}é%"));
        }
    }
    let parts = ["%", "%2", "%25", "%2f", "%7E0", "%7e1", "~0", "~1", "/", "%F0%9F%9A%80", "%f0%9f", "é", "%é", "%1é", "a", "%+1", "%-1", "% 1", "%G0", "%0G", "~", "~01", "\u{1}"];
    for _ in 0..if c.thorough { 3_000_000 } else { 120_000 } {
        let n = 1 + c.rng.below(5);
        let t: String = (0..n).map(|_| *c.rng.pick(&parts)).collect();
        ptr_case(c, &t);
        let t = c.rng.string(&chars, 8);
        name_case(c, &t);
        if !c.time_left() {
            return;
        }
    }
}

/// the generator as the property describes it
#[derive(Clone)]
struct Model {
    defs: Vec<Def>,
    inline: bool,
    path: String,
    names: BTreeMap<String, String>,
    used: BTreeSet<String>,
    definitions: BTreeMap<String, Value>,
    pending: Vec<String>,
    roots: Vec<String>,
    calls: Vec<usize>,
    fuel: usize,
}
impl Model {
    fn body(&mut self, i: usize) -> Option<Value> {
        self.fuel = self.fuel.checked_sub(1)?;
        let d = self.defs[i].clone();
        self.calls[i] += 1;
        let added = !self.pending.contains(&d.id);
        if added {
            self.pending.push(d.id.clone());
        }
        let mut v = d.base.clone();
        if !d.kids.is_empty() {
            let mut p = v.get("properties").and_then(Value::as_object).cloned().unwrap_or_default();
            for (j, k) in d.kids.iter().enumerate() {
                p.insert(format!("p{j}"), self.sub(*k)?);
            }
            v["properties"] = Value::Object(p);
        }
        if let Some(r) = d.nested_root {
            self.root(r)?;
        }
        if added {
            self.pending.retain(|x| *x != d.id);
        }
        Some(if v.is_null() { json!({}) } else { v })
    }
    fn sub(&mut self, i: usize) -> Option<Value> {
        let d = self.defs[i].clone();
        if d.inline || (self.inline && !self.pending.contains(&d.id)) {
            return self.body(i);
        }
        if self.roots.last() == Some(&d.id) {
            return Some(json!({"$ref": "#"}));
        }
        let name = match self.names.get(&d.id) {
            Some(n) => n.clone(),
            None => {
                let mut n = d.name.clone();
                let mut k = 2;
                while self.used.contains(&n) {
                    n = format!("{}{k}", d.name);
                    k += 1;
                }
                self.used.insert(n.clone());
                self.names.insert(d.id.clone(), n.clone());
                n
            }
        };
        let r = json!({ "$ref": format!("#{}/{}", self.path, encode(&name)) });
        if !self.definitions.contains_key(&name) {
            self.definitions.insert(name.clone(), json!(false));
            let b = self.body(i)?;
            self.definitions.insert(name, b);
        }
        Some(r)
    }
    fn root(&mut self, i: usize) -> Option<Value> {
        let d = self.defs[i].clone();
        self.roots.push(d.id.clone());
        let b = self.body(i)?;
        let mut m = match b {
            Value::Object(m) => m,
            Value::Bool(false) => json!({"not": {}}).as_object().unwrap().clone(),
            _ => Map::new(),
        };
        if !m.contains_key("title") {
            m.insert("title".into(), json!(d.name));
        }
        let mut v = Value::Object(m);
        if !self.definitions.is_empty() {
            place(&mut v, &self.path, &self.definitions);
        }
        self.roots.pop();
        Some(v)
    }
}
/// adds the definitions under the pointer, creating objects; nothing when the pointer is malformed or runs through a non-object
pub fn place(v: &mut Value, path: &str, defs: &BTreeMap<String, Value>) {
    let tokens: Vec<String> = if path.is_empty() {
        vec![]
    } else if let Some(p) = path.strip_prefix('/') {
        p.split('/').map(unescape).collect()
    } else {
        return;
    };
    // blocked?
    let mut cur = &*v;
    for t in &tokens {
        match cur.get(t) {
            Some(x) if x.is_object() => cur = x,
            Some(_) => return,
            None => break,
        }
    }
    let mut cur = v;
    for t in &tokens {
        cur = cur.as_object_mut().unwrap().entry(t.as_str()).or_insert(json!({}));
    }
    for (k, x) in defs {
        cur[k.as_str()] = x.clone();
    }
}
fn strip(path: &str) -> String {
    let p = path.strip_prefix('#').unwrap_or(path);
    p.strip_suffix('/').unwrap_or(p).to_string()
}
const PREF: &[&str] = &["A", "A2", "A3", "B", "a/b", "é ~", "", "A22", "2"];
fn world(c: &mut Ctx) -> Vec<Def> {
    let n = 1 + c.rng.below(6);
    let mut v: Vec<Def> = vec![];
    let clash = c.rng.chance(2, 3);
    for i in 0..n {
        let name = if clash { PREF[c.rng.below(3)] } else { *c.rng.pick(PREF) };
        let inline = c.rng.chance(1, 6);
        let id = format!("id{i}");
        let mut base = json!({ "x-id": id });
        if c.rng.chance(1, 5) {
            base["title"] = json!("own");
        }
        let mut kids = vec![];
        for _ in 0..c.rng.below(4) {
            kids.push(c.rng.below(n));
        }
        v.push(Def { name: name.into(), id, inline, kids, base, nested_root: None });
    }
    if c.rng.chance(1, 8) {
        let i = c.rng.below(n);
        v[i].nested_root = Some(c.rng.below(n));
    }
    // same type under two Rust types
    if n > 1 && c.rng.chance(1, 8) {
        v[n - 1] = v[0].clone();
    }
    v
}
fn show(defs: &[Def]) -> Value {
    Value::Array(defs.iter().map(|d| json!({"name": d.name, "id": d.id, "inline": d.inline, "kids": d.kids, "base": d.base, "root_inside": d.nested_root})).collect())
}
fn settings(inline: bool, path: &str) -> SchemaSettings {
    SchemaSettings::draft2020_12().with(|s| {
        s.meta_schema = None;
        s.inline_subschemas = inline;
        s.definitions_path = path.to_owned().into();
    })
}
/// every reference under `properties/pN` of a schema with x-id must resolve to the schema of that type
fn check_refs(doc: &Value, defs: &[Def], path: &str, under_root: &mut Vec<(String, String)>) -> Result<(), Value> {
    let by: BTreeMap<&str, &Def> = defs.iter().map(|d| (d.id.as_str(), d)).collect();
    let mut todo = vec![doc];
    while let Some(v) = todo.pop() {
        match v {
            Value::Object(m) => {
                if let Some(d) = m.get("x-id").and_then(Value::as_str).and_then(|i| by.get(i)) {
                    for (j, k) in d.kids.iter().enumerate() {
                        let Some(kid) = m.get("properties").and_then(|p| p.get(format!("p{j}"))) else { continue };
                        if let Some(r) = kid.get("$ref").and_then(Value::as_str) {
                            let target = decode(&r[1..]).and_then(|p| doc.pointer(&p).cloned());
                            let got = target.as_ref().and_then(|t| t.get("x-id")).and_then(Value::as_str).unwrap_or("nothing").to_string();
                            if got != defs[*k].id {
                                if r == "#" {
                                    under_root.push((d.id.clone(), defs[*k].id.clone()));
                                } else {
                                    return Err(json!({"in": d.id, "reference": r, "should_be": defs[*k].id, "resolves_to": got, "path": path}));
                                }
                            }
                        }
                    }
                }
                todo.extend(m.values());
            }
            Value::Array(a) => todo.extend(a),
            _ => {}
        }
    }
    Ok(())
}
pub fn c03(c: &mut Ctx) {
    let n = if c.thorough { 2_000_000 } else { 100_000 };
    for _ in 0..n {
        if !c.time_left() {
            return;
        }
        let defs = world(c);
        let inline = c.rng.chance(1, 5);
        let path = *c.rng.pick(&["/$defs", "#/definitions/", "/components/schemas", "/a~1b"]);
        let nops = 1 + c.rng.below(6);
        let ops: Vec<(usize, usize)> = (0..nops).map(|_| (c.rng.below(10), c.rng.below(defs.len()))).collect();
        let mut m = Model { defs: defs.clone(), inline, path: strip(path), names: Default::default(), used: Default::default(), definitions: Default::default(), pending: vec![], roots: vec![], calls: vec![0; defs.len()], fuel: 300 };
        // the model first: graphs whose generation does not end (inlined recursion) are left out
        let mut ends = true;
        let mut probe = m.clone();
        for (op, i) in &ops {
            probe.fuel = 300;
            ends &= match op {
                0..=4 => probe.sub(*i).is_some(),
                5 | 6 => probe.root(*i).is_some(),
                7 => {
                    probe.definitions.clear();
                    true
                }
                _ => true,
            };
            if !ends {
                break;
            }
        }
        if !ends {
            continue;
        }
        let mut stale = false;
        let input = json!({"types": show(&defs), "inline_subschemas": inline, "definitions_path": path, "operations (0-4 subschema_for, 5-6 root_schema_for, 7 take_definitions, 8 clone, 9 definitions)": ops.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()});
        c.holds("references, names and definitions over a history of operations", input, || {
            dynty::set(defs.clone());
            let mut g = settings(inline, path).into_generator();
            for (step, (op, i)) in ops.iter().enumerate() {
                m.fuel = 300;
                dynty::refuel();
                let (exp, got) = match op {
                    0..=4 => (m.sub(*i).unwrap(), dynty::subschema(&mut g, *i).to_value()),
                    5 | 6 => {
                        let e = m.root(*i).unwrap();
                        let r = dynty::root(&mut g, *i).to_value();
                        let mut known = vec![];
                        if let Err(x) = check_refs(&r, &defs, path, &mut known) {
                            return Err((json!("every reference resolves to its own type"), json!({"step": step, "document": r, "wrong": x})));
                        }
                        stale |= !known.is_empty();
                        (e, r)
                    }
                    7 => {
                        let e = json!(m.definitions);
                        m.definitions.clear();
                        (e, Value::Object(g.take_definitions(false)))
                    }
                    8 => {
                        g = g.clone();
                        (json!(0), json!(0))
                    }
                    _ => (json!(m.definitions), Value::Object(g.definitions().clone())),
                };
                if exp != got {
                    return Err((json!({"step": step, "result": exp}), json!({"step": step, "result": got})));
                }
                if json!(m.definitions) != Value::Object(g.definitions().clone()) {
                    return Err((json!({"step": step, "definitions": m.definitions}), json!({"step": step, "definitions": g.definitions()})));
                }
            }
            let calls = dynty::calls();
            if calls.iter().zip(&m.calls).any(|(a, b)| a > b) {
                return Err((json!({"generated at most": m.calls}), json!({ "generated": calls })));
            }
            Ok(json!(m.definitions))
        });
        if stale && c.known.is_empty() {
            c.known.push("root-ref-in-stored-definition".into());
        }
    }
    let _ = Contract::Deserialize;
}

pub fn c04(c: &mut Ctx) {
    let parts = ["$defs", "definitions", "a", "", "~0", "~1", "~01", "é x", "properties", "title", "x-id", "%41", "#", "p0", "required"];
    let n = if c.thorough { 2_000_000 } else { 100_000 };
    for it in 0..n {
        if !c.time_left() {
            return;
        }
        let mut defs = world(c);
        for d in &mut defs {
            d.nested_root = None;
            d.inline = false;
            // something already at or near the path
            if c.rng.chance(1, 2) {
                let k = *c.rng.pick(&parts);
                let v = match c.rng.below(5) {
                    0 => json!({}),
                    1 => json!({"a": {"title": {}}, "A": {"old": 1}, "$defs": {"B": 1}}),
                    2 => json!("text"),
                    3 => json!([1, {}]),
                    _ => json!({"definitions": {"A": 1, "z": 2}}),
                };
                if k != "x-id" && k != "properties" {
                    d.base[k] = v;
                }
            }
            if c.rng.chance(1, 20) {
                d.base = json!(c.rng.chance(1, 2));
                d.kids.clear();
            }
        }
        let path = if it < 40 {
            ["", "#", "/", "#/", "/$defs", "#/$defs", "#/$defs/", "/$defs/", "//", "///", "#//", "##", "/a/b/c/d", "/title", "/title/x", "definitions", "a/b", "/#", "/ /", "/a~1b/c~0d/~01", "/properties/p0", "/properties", "/x-id", "/x-id/y", "#$defs", "/$defs//", "/definitions/$defs/", "/~", "/~2", "/%24defs"][it % 30].to_string()
        } else {
            let mut p = String::new();
            if c.rng.chance(1, 2) {
                p.push('#');
            }
            for _ in 0..c.rng.below(4) {
                p.push('/');
                p.push_str(c.rng.pick(&parts));
            }
            if c.rng.chance(1, 3) {
                p.push('/');
            }
            p
        };
        let meta = *c.rng.pick(&[None, Some("http://m"), Some("")]);
        let into = c.rng.chance(1, 2);
        let pre: Vec<usize> = (0..c.rng.below(3)).map(|_| c.rng.below(defs.len())).collect();
        let root = c.rng.below(defs.len());
        let input = json!({"types": show(&defs), "definitions_path": path, "meta_schema": meta, "into_root_schema_for": into, "subschema_for first": pre, "root": root});
        c.holds("definitions placed at the configured path, title and $schema set, nothing else changed", input, || {
            dynty::set(defs.clone());
            let mut m = Model { defs: defs.clone(), inline: false, path: strip(&path), names: Default::default(), used: Default::default(), definitions: Default::default(), pending: vec![], roots: vec![], calls: vec![0; defs.len()], fuel: 300 };
            let mut g = settings(false, &path).with(|s| s.meta_schema = meta.map(Into::into)).into_generator();
            for i in &pre {
                m.sub(*i).unwrap();
                dynty::subschema(&mut g, *i);
            }
            let d = m.defs[root].clone();
            m.roots.push(d.id.clone());
            let mut e = match m.body(root).unwrap() {
                Value::Object(o) => o,
                Value::Bool(false) => json!({"not": {}}).as_object().unwrap().clone(),
                _ => Map::new(),
            };
            if !e.contains_key("title") {
                e.insert("title".into(), json!(d.name));
            }
            if let Some(u) = meta {
                e.insert("$schema".into(), json!(u));
            }
            let mut e = Value::Object(e);
            if !m.definitions.is_empty() {
                place(&mut e, &m.path, &m.definitions);
            }
            let r = if into {
                dynty::into_root(g, root).to_value()
            } else {
                let r = dynty::root(&mut g, root).to_value();
                if Value::Object(g.definitions().clone()) != json!(m.definitions) {
                    return Err((json!({"collected": m.definitions}), json!({"collected": g.definitions()})));
                }
                let t = Value::Object(g.take_definitions(false));
                if t != json!(m.definitions) || !g.definitions().is_empty() {
                    return Err((json!({"taken": m.definitions, "left": {}}), json!({"taken": t, "left": g.definitions()})));
                }
                r
            };
            if r != e {
                return Err((e, r));
            }
            Ok(r)
        });
    }
}
