//! `Dyn<N>`: types whose JsonSchema implementation is read from a thread-local table, so that type graphs can be generated.
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;

#[derive(Clone, Default, Debug)]
pub struct Def {
    pub name: String,
    pub id: String,
    pub inline: bool,
    /// children requested with subschema_for, in order, placed under properties p0, p1, ...
    pub kids: Vec<usize>,
    /// the rest of the schema
    pub base: Value,
    /// calls generator.root_schema_for of this type while generating
    pub nested_root: Option<usize>,
}
#[derive(Default)]
pub struct World {
    pub defs: Vec<Def>,
    /// calls to json_schema, per type
    pub calls: Vec<usize>,
    pub fuel: usize,
}
thread_local! { pub static W: RefCell<World> = RefCell::new(World::default()); }

/// as many generations again as one operation may take
pub fn refuel() {
    W.with(|w| w.borrow_mut().fuel = 400);
}
pub fn set(defs: Vec<Def>) {
    W.with(|w| {
        let n = defs.len();
        *w.borrow_mut() = World { defs, calls: vec![0; n], fuel: 400 };
    })
}
pub fn calls() -> Vec<usize> {
    W.with(|w| w.borrow().calls.clone())
}
pub fn def(i: usize) -> Def {
    W.with(|w| w.borrow().defs.get(i).cloned().unwrap_or_else(|| Def { name: format!("unused{i}"), id: format!("unused{i}"), ..Default::default() }))
}
pub struct Dyn<const N: usize>;
impl<const N: usize> JsonSchema for Dyn<N> {
    fn inline_schema() -> bool {
        def(N).inline
    }
    fn schema_name() -> Cow<'static, str> {
        def(N).name.into()
    }
    fn schema_id() -> Cow<'static, str> {
        def(N).id.into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let d = def(N);
        let over = W.with(|w| {
            let mut w = w.borrow_mut();
            w.calls[N] += 1;
            if w.fuel == 0 {
                return true;
            }
            w.fuel -= 1;
            false
        });
        if over {
            panic!("type graph does not end");
        }
        let mut v = d.base.clone();
        if !d.kids.is_empty() {
            let mut p = v.get("properties").and_then(Value::as_object).cloned().unwrap_or_else(Map::new);
            for (i, k) in d.kids.iter().enumerate() {
                p.insert(format!("p{i}"), subschema(g, *k).to_value());
            }
            v["properties"] = Value::Object(p);
        }
        if let Some(r) = d.nested_root {
            let _ = root(g, r);
        }
        if v.is_boolean() {
            return Schema::try_from(v).unwrap();
        }
        if v.is_null() {
            v = json!({});
        }
        Schema::try_from(v).unwrap()
    }
}
macro_rules! dispatch {
    ($i:expr, $N:ident => $e:expr) => {
        match $i {
            0 => { const $N: usize = 0; $e }
            1 => { const $N: usize = 1; $e }
            2 => { const $N: usize = 2; $e }
            3 => { const $N: usize = 3; $e }
            4 => { const $N: usize = 4; $e }
            _ => { const $N: usize = 5; $e }
        }
    };
}
pub fn subschema(g: &mut SchemaGenerator, i: usize) -> Schema {
    dispatch!(i, N => g.subschema_for::<Dyn<N>>())
}
pub fn root(g: &mut SchemaGenerator, i: usize) -> Schema {
    dispatch!(i, N => g.root_schema_for::<Dyn<N>>())
}
pub fn into_root(g: SchemaGenerator, i: usize) -> Schema {
    dispatch!(i, N => g.into_root_schema_for::<Dyn<N>>())
}
