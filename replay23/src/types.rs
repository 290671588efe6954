//! the declarations: those of derive/corpus.rs with concrete field types, and forms the proof does not reach
use crate::{case, ctx::Ctx, Rules};
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

macro_rules! derive { ($($i:item)*) => { $(#[derive(Serialize, Deserialize, JsonSchema, Clone, Default)] $i)* } }
macro_rules! derive_enum { ($($i:item)*) => { $(#[derive(Serialize, Deserialize, JsonSchema, Clone)] $i)* } }
type O = Option<u8>;
fn skip_it<T: Serialize>(x: &T) -> bool {
    matches!(serde_json::to_value(x).unwrap(), Value::Null | Value::Bool(false)) || serde_json::to_value(x).unwrap() == json!(0)
}
// outside the macro: its attribute would get another hygiene
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
#[serde(default = "cdp")]
struct ContDefPath {
    a: u8,
    b: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    c: O,
}
fn cdp() -> ContDefPath {
    ContDefPath { a: 1, b: "b".into(), c: None }
}
fn dflt() -> u8 {
    7
}
derive! {
    struct Plain { a: u8, b: O, c: String }
    #[serde(rename_all = "camelCase")]
    struct Renamed { first_name: u8, #[serde(rename = "x-y")] second: O, r#type: bool }
    #[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "kebab-case"))]
    struct TwoNames { #[serde(rename(serialize = "out", deserialize = "in"))] a: u8, b_c: O, #[serde(rename(serialize = "only_out"))] d_e: u8, #[serde(rename(deserialize = "only_in"))] f_g: u8 }
    #[serde(deny_unknown_fields)]
    struct Deny { a: u8, #[serde(default)] b: O, #[serde(rename = "x-y", skip_deserializing)] c: u8 }
    struct Defaults { #[serde(default)] a: u8, #[serde(default, skip_serializing_if = "skip_it")] b: u8, #[serde(default = "dflt")] c: u8, d: u8 }
    #[serde(default, rename_all = "PascalCase")]
    struct AllDefault { a_b: u8, #[serde(skip_serializing_if = "skip_it")] c: O, #[serde(default = "dflt")] d: u8 }
    struct SkipIf { #[serde(skip_serializing_if = "Option::is_none")] a: O, b: u8 }
    struct Skips { #[serde(skip_serializing, default)] a: u8, #[serde(skip_deserializing)] b: u8, #[serde(skip)] c: u8, d: bool }
    struct Described { #[serde(rename = "e")] #[schemars(title = "T", description = "D", example = 3, extend("x-a" = "v"))] #[deprecated] a: u8 }
    struct Newtype(u8);
    struct Pair(u8, String);
    struct PairSkip(u8, #[serde(skip_deserializing)] u8, #[serde(skip)] bool, String);
    struct TupSkipIf(u8, #[serde(skip_serializing_if = "Option::is_none")] O);
    struct TupDef(u8, #[serde(default)] u8);
    struct FlatExt { a: u8, #[serde(flatten)] e: Ext }
    struct FlatExtOpt { a: u8, #[serde(flatten)] e: Option<Ext> }
    struct FlatAdj { a: u8, #[serde(flatten)] e: Adj }
    struct FlatUnt { a: u8, #[serde(flatten)] e: Unt }
    struct FlatUnit { a: u8, #[serde(flatten)] e: () }
    struct FlatSkip { a: u8, #[serde(flatten, skip_serializing)] b: Inner, #[serde(flatten, skip_deserializing)] c: Inner2 }
    struct FlatNest { a: u8, #[serde(flatten)] b: FlatTwo }
    #[serde(default)]
    struct FlatDef { a: u8, #[serde(flatten)] b: Inner }
    struct FlatBox { a: u8, #[serde(flatten)] b: Box<Inner> }
    struct Odd { u: (), oo: Option<Option<u8>>, ou: Option<()>, b: Box<O>, bs: Box<str> }
    #[serde(transparent)]
    struct TransSkip { a: u8, #[serde(skip)] b: u8 }
    struct Seqs { v: Vec<Pair>, t: (u8, String), a: [u8; 2], m: BTreeMap<u8, Unit> }
    struct Dup { #[serde(rename = "b")] a: u8, #[serde(rename = "a")] b: String }
    struct NewSkipS(#[serde(skip)] u8);
    struct NewSkipHalf(#[serde(skip_deserializing)] u8);
    struct Unit;
    struct NoFields {}
    struct EmptyTuple();
    #[serde(transparent)]
    struct Transparent { a: Plain }
    #[schemars(transparent)]
    struct TransTuple(BTreeMap<String, u8>);
    #[serde(into = "Plain", from = "Deny")]
    struct Into_ { #[serde(rename = "q")] z: u8 }
    #[serde(try_from = "Deny")]
    struct Try_ { z: u8 }
    struct SchemarsOver { #[serde(rename = "sn")] #[schemars(rename = "two")] #[serde(alias = "x")] a: u8 }
    struct Flat { a: u8, #[serde(flatten)] b: Inner, #[serde(flatten)] rest: BTreeMap<String, Value> }
    struct FlatOpt { a: u8, #[serde(flatten)] b: Option<Inner2> }
    struct FlatEnum { a: u8, #[serde(flatten)] b: Kind }
    struct FlatTwo { #[serde(flatten)] a: Inner, #[serde(flatten)] b: Inner2 }
    #[serde(rename_all = "camelCase")]
    struct FlatRen { own_field: u8, #[serde(flatten)] b: Inner }
    struct Inner { x_one: u8, #[serde(default)] x_two: O }
    #[serde(rename_all = "UPPERCASE")]
    struct Inner2 { y: String }
    #[serde(rename_all = "camelCase")]
    struct Nested { the_inner: Inner, #[serde(default)] list_of: Vec<Inner2>, map_of: BTreeMap<String, Inner> }
    #[serde(tag = "kind")]
    struct Tagged { a: u8 }
    struct With { #[schemars(with = "u8")] a: Hidden, #[schemars(schema_with = "string_schema")] b: String }
    struct Ranged { #[schemars(range(min = 0, max = 255), length(min = 0))] a: u8, #[schemars(inner(range(max = 255)))] l: Vec<u8> }
    #[serde(rename = "Other", bound = "")]
    struct Gen<T: Serialize + serde::de::DeserializeOwned + JsonSchema + Clone + Default> { t: T, o: Option<T> }
    struct ReqSkip { #[schemars(required)] #[serde(skip_serializing_if = "Option::is_none")] a: O, b: u8 }
    struct DefSkip { #[serde(default, skip_serializing)] a: u8, #[serde(default, skip_deserializing)] b: u8, #[serde(default = "dflt", skip_deserializing, skip_serializing_if = "skip_it")] c: u8, #[serde(skip_serializing)] d: O }
    #[serde(rename_all(deserialize = "camelCase"))]
    struct RenDe { a_b: u8, #[serde(rename(serialize = "c-d"))] c_d: O, #[serde(flatten)] f: Inner }
    #[serde(deny_unknown_fields, default)]
    struct DenyDef { a: u8, b: O }
    #[serde(deny_unknown_fields)]
    struct DenyNone {}
    #[serde(deny_unknown_fields)]
    struct DenyNested { a: Inner, d: DenyDef, o: Option<DenyDef>, l: Vec<DenyDef> }
    struct Lower { #[serde(rename(serialize = "a-b"), default)] ab: O, #[serde(rename(deserialize = "c-d"), skip_serializing_if = "Option::is_none")] cd: O }
}
#[derive(Serialize, Deserialize, Clone, Default)]
struct Hidden(u8);
fn string_schema(g: &mut schemars::SchemaGenerator) -> schemars::Schema {
    String::json_schema(g)
}
impl From<Into_> for Plain { fn from(x: Into_) -> Self { Plain { a: x.z, b: None, c: String::new() } } }
impl From<Deny> for Into_ { fn from(x: Deny) -> Self { Into_ { z: x.a } } }
impl From<Deny> for Try_ { fn from(x: Deny) -> Self { Try_ { z: x.a } } }
derive_enum! {
    enum Units { One, #[serde(rename = "2")] Two, #[serde(rename(serialize = "s3", deserialize = "d3"))] Three, #[serde(skip)] Four }
    #[serde(rename_all = "snake_case")]
    enum External { FirstUnit, New(u8), Tup(u8, String), #[serde(rename_all = "camelCase")] Rec { field_one: u8, #[serde(default)] two_two: O }, #[serde(skip)] Gone, Empty {}, NoneTup() }
    #[serde(deny_unknown_fields)]
    enum ExternalDeny { Rec { a: u8, #[serde(default)] b: O }, U, Def { #[serde(default)] a: u8 }, No {} }
    enum ExternalSkip { #[serde(skip_serializing)] In(u8), #[serde(skip_deserializing)] Out(String), #[serde(skip_serializing)] U, #[serde(skip_deserializing)] W, V }
    #[serde(tag = "t", rename_all = "kebab-case")]
    enum Internal { UnitOne, RecTwo { a: u8, b: O }, New(Inner), #[serde(skip_deserializing)] Out { z: u8 }, #[serde(skip_serializing)] In { z: u8 }, Un(()) }
    #[serde(tag = "t", deny_unknown_fields)]
    enum InternalDeny { Unit, Def { #[serde(default)] a: u8 }, No {}, Rec { a: u8, #[serde(skip_serializing_if = "skip_it", default)] b: u8 } }
    #[serde(tag = "t", content = "c")]
    enum Adjacent { Unit, New(u8), Tup(u8, String), Rec { a: u8 }, #[serde(skip_deserializing)] Out(u8), #[serde(skip_serializing)] In(u8), #[serde(rename(serialize = "s", deserialize = "d"))] Ren { #[serde(rename(serialize = "so", deserialize = "de"))] x: u8 } }
    #[serde(tag = "t", content = "c", deny_unknown_fields)]
    enum AdjacentDeny { Unit, New(u8), Rec { a: u8, #[serde(default)] b: O }, Def { #[serde(default)] a: u8 }, No {}, Opt { a: O } }
    #[serde(untagged)]
    enum Untagged { Unit, New(u8), Tup(u8, String), Rec { a: u8 }, Rec2 { #[serde(rename = "x-y")] b: String } }
    #[serde(untagged, deny_unknown_fields)]
    enum UntaggedDeny { First { a: u8 }, Second { a: String, #[serde(rename = "x-y")] b: u8 } }
    enum LastUntagged { Unit, Rec { a: u8 }, #[serde(untagged)] New(u8) }
    #[serde(rename_all_fields = "camelCase", rename_all(serialize = "UPPERCASE", deserialize = "lowercase"))]
    enum FieldNames { Rec { first_name: u8, #[serde(rename = "q")] second_name: u8 }, Unit }
    #[serde(tag = "kind")]
    enum Kind { A, B { bb: u8 }, C(Inner) }
    #[serde(rename_all = "SCREAMING-KEBAB-CASE", rename_all_fields(serialize = "PascalCase"))]
    enum Scream { OneTwo { in_ner: u8 }, TheUnit }
    #[serde(from = "External", into = "External")]
    enum Conv { A(u8) }
    #[schemars(rename_all = "lowercase")]
    #[serde(rename_all = "UPPERCASE")]
    enum OverridePlain { AbC }
    enum NewSkip { New(#[serde(skip)] u8), Half(#[serde(skip_deserializing)] u8), Tup(u8, #[serde(skip)] u8), Two(#[serde(skip)] u8, #[serde(skip)] u8), One(#[serde(skip)] u8, u8) }
    #[serde(tag = "t", content = "c")]
    enum NewSkipAdj { New(#[serde(skip)] u8), Tup(u8, #[serde(skip)] u8), Two(#[serde(skip)] u8, #[serde(skip)] u8) }
    #[serde(tag = "t")]
    enum NewSkipInt { New(#[serde(skip)] u8) }
    #[serde(untagged)]
    enum NewSkipUn { New(#[serde(skip)] u8), Tup(u8, #[serde(skip)] u8) }
    enum Ext { New(u8), Rec { x: u8 }, Tup(u8, u8) }
    #[serde(tag = "t", content = "c")]
    enum Adj { New(u8), Unit, Rec { x: u8 } }
    #[serde(untagged)]
    enum Unt { Rec { x: u8 }, Rec2 { y: String } }
    #[serde(tag = "t")]
    enum IntNew { A(Inner), B(Box<Inner2>), C(Kind), D(Unt), E(BTreeMap<String, u8>), F(NoFields), G(FlatTwo), H(Flat), #[serde(rename_all = "UPPERCASE")] I { a_b: u8, #[serde(flatten)] f: Inner } }
    enum ExtFlat { A { a: u8, #[serde(flatten)] f: Inner }, B { #[serde(flatten)] m: BTreeMap<String, u8> }, C { #[serde(skip_serializing_if = "Option::is_none")] o: O, #[serde(default, skip_deserializing)] p: u8 }, D(O), E(()), F(Unit) }
    #[serde(tag = "t", content = "c")]
    enum AdjUn { A(u8), #[serde(untagged)] B { b: u8 }, #[serde(untagged)] C }
    #[serde(tag = "t")]
    enum IntUn { A { a: u8 }, #[serde(untagged)] B { b: u8 }, #[serde(untagged)] C(u8) }
    #[serde(untagged)]
    enum UnSkip { #[serde(skip_serializing)] A { a: u8 }, #[serde(skip_deserializing)] B { b: u8 }, C(O), D(Kind) }
    #[serde(tag = "t", content = "c")]
    enum AdjOpt { A(O), B(()), C(Unit), D { #[serde(default)] a: u8, #[serde(skip_serializing_if = "Option::is_none")] b: O } }
    enum AllTup { A(u8, #[serde(skip_deserializing)] u8), B(#[serde(skip_serializing)] u8, u8), C(O, O) }
    enum DocUnit { #[doc = "documented"] #[serde(rename(serialize = "out", deserialize = "in"))] V, #[schemars(title = "T")] #[serde(rename(serialize = "o2", deserialize = "i2"))] W, #[serde(rename(serialize = "o3", deserialize = "i3"))] X(u8), Y }
    enum UntUnits { A(u8), #[serde(untagged)] N, #[serde(untagged)] M }
    #[serde(tag = "t")]
    enum Other { A { a: u8 }, #[serde(other)] Rest }
    #[serde(tag = "t", content = "c")]
    enum OtherAdj { A { a: u8 }, #[serde(other)] Rest }
    #[serde(tag = "t", rename_all(serialize = "UPPERCASE", deserialize = "lowercase"))]
    enum IntRen { Vv { a: u8 }, New(Inner), Unit, #[serde(rename(serialize = "so", deserialize = "de"), rename_all(serialize = "UPPERCASE"))] Z { a_b: u8 } }
    #[serde(tag = "t", rename_all(serialize = "UPPERCASE", deserialize = "lowercase"), rename_all_fields(deserialize = "camelCase"))]
    enum IntRen2 { Vv { a_b: u8, #[serde(flatten)] f: Inner }, #[serde(alias = "q")] Unit }
    enum Deep { Node { left: Box<Option<Deep>>, kids: Vec<Deep> }, Leaf(Internal) }
}
impl Default for Ext { fn default() -> Self { Ext::New(1) } }
impl Default for Adj { fn default() -> Self { Adj::Unit } }
impl Default for Unt { fn default() -> Self { Unt::Rec { x: 1 } } }
impl Default for Kind { fn default() -> Self { Kind::A } }
impl From<External> for Conv { fn from(x: External) -> Self { Conv::A(1) } }
impl From<Conv> for External { fn from(x: Conv) -> Self { External::New(3) } }

pub fn all(c: &mut Ctx, n: usize) {
    fn s(x: &str) -> String { x.to_string() }
    macro_rules! t {
        ($t:ty, $de:expr, $ser:expr, [$($v:expr),* $(,)?], $j:tt) => { case::<$t>(c, stringify!($t), Rules { de: $de, ser: $ser, ser_only: false }, vec![$($v),*], match json!($j) { Value::Array(a) => a, _ => vec![] }, n) };
    }
    let inner = Inner { x_one: 1, x_two: Some(2) };
    let i2 = Inner2 { y: s("y") };
    let mut map = BTreeMap::new();
    map.insert(s("k"), inner.clone());
    t!(Plain, true, Some(&[]), [Plain { a: 1, b: Some(2), c: s("x") }, Plain { a: 1, b: None, c: s("") }], []);
    t!(Renamed, true, Some(&[]), [Renamed { first_name: 1, second: None, r#type: true }], []);
    t!(TwoNames, true, Some(&[]), [TwoNames { a: 1, b_c: Some(1), d_e: 3, f_g: 4 }], [{ "in": 1, "b-c": 2, "d-e": 3, "only_in": 4 }]);
    t!(Deny, true, Some(&[]), [Deny { a: 1, b: Some(2), c: 3 }], [{ "a": 1, "b": 2 }]);
    t!(Defaults, true, Some(&["b"]), [Defaults { a: 1, b: 2, c: 3, d: 4 }, Defaults { a: 0, b: 0, c: 0, d: 0 }], []);
    t!(AllDefault, true, Some(&["C"]), [AllDefault { a_b: 1, c: Some(2), d: 3 }, AllDefault { a_b: 1, c: None, d: 3 }], []);
    t!(SkipIf, true, Some(&["a"]), [SkipIf { a: Some(1), b: 2 }, SkipIf { a: None, b: 2 }], []);
    t!(Skips, true, Some(&[]), [Skips { a: 1, b: 2, c: 3, d: true }], [{ "a": 1, "d": false }]);
    #[allow(deprecated)]
    { t!(Described, true, Some(&[]), [Described { a: 1 }], []); }
    t!(Newtype, true, Some(&[]), [Newtype(3)], []);
    t!(Pair, true, Some(&[]), [Pair(3, s("x"))], []);
    t!(PairSkip, true, Some(&[]), [PairSkip(3, 4, true, s("z"))], [[1, "s"]]);
    t!(Unit, true, Some(&[]), [Unit], []);
    t!(NoFields, true, Some(&[]), [NoFields {}], []);
    t!(EmptyTuple, true, Some(&[]), [EmptyTuple()], []);
    t!(Transparent, true, Some(&[]), [Transparent { a: Plain { a: 1, b: None, c: s("v") } }], []);
    t!(TransTuple, true, None, [TransTuple(Default::default())], [{ "k": 1 }]);
    t!(Into_, true, Some(&[]), [Into_ { z: 4 }], [{ "a": 1, "b": 2 }]);
    t!(Try_, true, Some(&[]), [Try_ { z: 4 }], [{ "a": 1, "b": 2 }]);
    t!(Flat, true, None, [Flat { a: 1, b: inner.clone(), rest: Default::default() }], []);
    t!(FlatOpt, false, None, [FlatOpt { a: 1, b: None }, FlatOpt { a: 1, b: Some(i2.clone()) }], []);
    t!(FlatEnum, true, Some(&[]), [FlatEnum { a: 1, b: Kind::A }, FlatEnum { a: 1, b: Kind::B { bb: 2 } }, FlatEnum { a: 1, b: Kind::C(inner.clone()) }], []);
    t!(FlatTwo, true, Some(&[]), [FlatTwo { a: inner.clone(), b: i2.clone() }], []);
    t!(FlatRen, true, Some(&[]), [FlatRen { own_field: 1, b: inner.clone() }], []);
    t!(Nested, true, None, [Nested { the_inner: inner.clone(), list_of: vec![i2.clone()], map_of: map.clone() }], []);
    t!(Tagged, true, None, [Tagged { a: 1 }], []);
    t!(With, true, Some(&[]), [With { a: Hidden(1), b: s("x") }], []);
    t!(Ranged, true, Some(&[]), [Ranged { a: 255, l: vec![0, 255] }], []);
    t!(Gen<u8>, true, Some(&[]), [Gen { t: 1, o: None }, Gen { t: 1, o: Some(1) }], []);
    t!(Gen<Inner>, true, Some(&[]), [Gen { t: inner.clone(), o: None }, Gen { t: inner.clone(), o: Some(inner.clone()) }], []);
    t!(Lower, true, Some(&["cd"]), [Lower { ab: Some(1), cd: Some(2) }, Lower { ab: None, cd: None }], [{ "ab": 1, "c-d": 2 }]);

    t!(Units, true, Some(&[]), [Units::One, Units::Two, Units::Three], ["One", "2", "d3", "s3", "Four", "Three"]);
    t!(External, true, Some(&[]), [External::FirstUnit, External::New(1), External::Tup(1, s("x")), External::Rec { field_one: 1, two_two: None }, External::Empty {}, External::NoneTup()], ["gone"]);
    t!(ExternalDeny, true, Some(&[]), [ExternalDeny::Rec { a: 1, b: Some(2) }, ExternalDeny::U, ExternalDeny::Def { a: 1 }, ExternalDeny::No {}], []);
    t!(ExternalSkip, true, Some(&[]), [ExternalSkip::Out(s("o")), ExternalSkip::W, ExternalSkip::V], [{ "In": 1 }, "U", "W", { "Out": "o" }]);
    t!(Internal, false, Some(&[]), [Internal::UnitOne, Internal::RecTwo { a: 1, b: None }, Internal::New(inner.clone()), Internal::Out { z: 1 }, Internal::Un(())], [{ "t": "in", "z": 1 }, { "t": "out", "z": 1 }]);
    t!(InternalDeny, false, Some(&["b"]), [InternalDeny::Unit, InternalDeny::Def { a: 1 }, InternalDeny::No {}, InternalDeny::Rec { a: 1, b: 0 }, InternalDeny::Rec { a: 1, b: 2 }], []);
    t!(Adjacent, true, Some(&[]), [Adjacent::Unit, Adjacent::New(1), Adjacent::Tup(1, s("x")), Adjacent::Rec { a: 1 }, Adjacent::Out(1), Adjacent::Ren { x: 1 }], [{ "t": "In", "c": 1 }, { "t": "Out", "c": 1 }, { "t": "d", "c": { "de": 1 } }]);
    t!(AdjacentDeny, true, Some(&[]), [AdjacentDeny::Unit, AdjacentDeny::New(1), AdjacentDeny::Rec { a: 1, b: None }, AdjacentDeny::Def { a: 1 }, AdjacentDeny::No {}, AdjacentDeny::Opt { a: None }], []);
    t!(Untagged, false, None, [Untagged::Unit, Untagged::New(1), Untagged::Tup(1, s("x")), Untagged::Rec { a: 1 }, Untagged::Rec2 { b: s("s") }], []);
    t!(UntaggedDeny, true, Some(&[]), [UntaggedDeny::First { a: 1 }, UntaggedDeny::Second { a: s("x"), b: 1 }], []);
    t!(LastUntagged, true, Some(&[]), [LastUntagged::Unit, LastUntagged::Rec { a: 1 }, LastUntagged::New(1)], []);
    t!(FieldNames, true, Some(&[]), [FieldNames::Rec { first_name: 1, second_name: 2 }, FieldNames::Unit], [{ "rec": { "firstName": 1, "q": 2 } }, "unit"]);
    t!(Scream, true, Some(&[]), [Scream::OneTwo { in_ner: 1 }, Scream::TheUnit], [{ "ONE-TWO": { "in_ner": 1 } }]);
    t!(Conv, true, Some(&[]), [Conv::A(1)], ["first_unit", { "new": 1 }]);
    t!(NewSkip, true, Some(&[]), [NewSkip::New(1), NewSkip::Half(1), NewSkip::Tup(1, 2), NewSkip::Two(1, 2), NewSkip::One(1, 2)], ["New", "Half", { "Half": 1 }, { "Tup": [1, 2] }, { "Two": [] }]);
    // serde writes {"t": "New"}, and reads only {"t": "New", "c": null}
    case::<NewSkipAdj>(c, "NewSkipAdj", Rules { de: false, ser: Some(&[]), ser_only: true }, vec![NewSkipAdj::New(1), NewSkipAdj::Tup(1, 2), NewSkipAdj::Two(1, 2)], vec![], n);
    t!(NewSkipInt, true, Some(&[]), [NewSkipInt::New(1)], [{ "t": "New" }, { "t": "New", "c": null }]);
    t!(NewSkipUn, true, Some(&[]), [NewSkipUn::New(1), NewSkipUn::Tup(1, 2)], [null, 1]);
    t!(NewSkipS, true, Some(&[]), [NewSkipS(1)], [null, []]);
    t!(NewSkipHalf, true, Some(&[]), [NewSkipHalf(1)], [null, []]);
    let f2 = FlatTwo { a: inner.clone(), b: i2.clone() };
    t!(FlatExt, true, Some(&[]), [FlatExt { a: 1, e: Ext::New(2) }, FlatExt { a: 1, e: Ext::Rec { x: 2 } }, FlatExt { a: 1, e: Ext::Tup(2, 3) }], []);
    t!(FlatExtOpt, false, None, [FlatExtOpt { a: 1, e: Some(Ext::New(2)) }, FlatExtOpt { a: 1, e: None }, FlatExtOpt { a: 1, e: Some(Ext::Tup(2, 3)) }], []);
    t!(FlatAdj, true, Some(&[]), [FlatAdj { a: 1, e: Adj::New(2) }, FlatAdj { a: 1, e: Adj::Rec { x: 2 } }, FlatAdj { a: 1, e: Adj::Unit }], []);
    t!(FlatUnt, true, Some(&[]), [FlatUnt { a: 1, e: Unt::Rec { x: 2 } }, FlatUnt { a: 1, e: Unt::Rec2 { y: s("") } }], []);
    t!(FlatUnit, true, Some(&[]), [FlatUnit { a: 1, e: () }], []);
    t!(FlatSkip, true, Some(&[]), [FlatSkip { a: 1, b: inner.clone(), c: i2.clone() }], [{ "a": 1, "x_one": 2 }]);
    t!(FlatNest, true, Some(&[]), [FlatNest { a: 1, b: f2.clone() }], []);
    t!(FlatDef, false, Some(&[]), [FlatDef { a: 1, b: inner.clone() }], []);
    t!(FlatBox, true, Some(&[]), [FlatBox { a: 1, b: Box::new(inner.clone()) }], []);
    // known: elements that may be left out are still counted
    let ks = crate::schema::<TupSkipIf>(true);
    if (crate::valid::V { root: &ks }).ok(&ks, &serde_json::to_value(TupSkipIf(1, None)).unwrap()) == Some(false) && c.known.is_empty() {
        c.known.push("tuple-skip-serializing-if".into());
    }
    t!(Odd, false, Some(&[]), [Odd { u: (), oo: None, ou: None, b: Box::new(None), bs: "x".into() }, Odd { u: (), oo: Some(Some(1)), ou: Some(()), b: Box::new(Some(1)), bs: "x".into() }], []);
    t!(TransSkip, true, Some(&[]), [TransSkip { a: 1, b: 2 }], []);
    t!(Seqs, true, None, [Seqs { v: vec![Pair(1, s("x"))], t: (1, s("y")), a: [1, 2], m: [(1, Unit)].into_iter().collect() }], []);
    t!(Dup, true, Some(&[]), [Dup { a: 1, b: s("q") }], []);
    t!(IntNew, false, None, [IntNew::A(inner.clone()), IntNew::B(Box::new(i2.clone())), IntNew::C(Kind::B { bb: 1 }), IntNew::D(Unt::Rec { x: 1 }), IntNew::D(Unt::Rec2 { y: s("y") }), IntNew::E([(s("k"), 1)].into_iter().collect()), IntNew::F(NoFields {}), IntNew::G(f2.clone()), IntNew::H(Flat { a: 1, b: inner.clone(), rest: Default::default() }), IntNew::I { a_b: 1, f: inner.clone() }], []);
    t!(ExtFlat, false, None, [ExtFlat::A { a: 1, f: inner.clone() }, ExtFlat::B { m: [(s("k"), 1)].into_iter().collect() }, ExtFlat::C { o: None, p: 1 }, ExtFlat::C { o: Some(1), p: 1 }, ExtFlat::D(None), ExtFlat::D(Some(1)), ExtFlat::E(()), ExtFlat::F(Unit)], []);
    t!(AdjUn, false, None, [AdjUn::A(1), AdjUn::B { b: 1 }, AdjUn::C], []);
    t!(IntUn, false, None, [IntUn::A { a: 1 }, IntUn::B { b: 1 }, IntUn::C(3)], []);
    t!(UnSkip, false, None, [UnSkip::B { b: 1 }, UnSkip::C(None), UnSkip::C(Some(1)), UnSkip::D(Kind::A)], [{ "a": 1 }]);
    t!(AdjOpt, false, Some(&["b"]), [AdjOpt::A(None), AdjOpt::A(Some(1)), AdjOpt::B(()), AdjOpt::C(Unit), AdjOpt::D { a: 1, b: None }, AdjOpt::D { a: 1, b: Some(1) }], []);
    t!(AllTup, true, Some(&[]), [AllTup::A(1, 2), AllTup::B(1, 2), AllTup::C(None, Some(1))], [{ "A": [1] }, { "B": [1, 2] }]);
    let dd = DenyDef { a: 1, b: Some(2) };
    t!(DenyDef, true, Some(&[]), [dd.clone()], []);
    t!(DenyNone, true, Some(&[]), [DenyNone {}], []);
    t!(DenyNested, true, Some(&[]), [DenyNested { a: inner.clone(), d: dd.clone(), o: Some(dd.clone()), l: vec![dd.clone()] }], []);
    t!(ContDefPath, true, Some(&["c"]), [ContDefPath { a: 1, b: s("x"), c: None }, ContDefPath { a: 1, b: s("x"), c: Some(1) }], []);
    t!(ReqSkip, false, Some(&["a"]), [ReqSkip { a: Some(1), b: 2 }, ReqSkip { a: None, b: 2 }], []);
    t!(DefSkip, true, Some(&["c"]), [DefSkip { a: 1, b: 2, c: 3, d: None }, DefSkip { a: 1, b: 2, c: 0, d: Some(1) }], [{ "a": 1, "d": 2 }]);
    t!(RenDe, true, Some(&[]), [RenDe { a_b: 1, c_d: Some(1), f: inner.clone() }], [{ "aB": 1, "cD": 2, "x_one": 3, "x_two": 4 }]);
    t!(DocUnit, true, Some(&[]), [DocUnit::V, DocUnit::W, DocUnit::X(1), DocUnit::Y], ["in", "out", "i2", "o2", { "i3": 1 }]);
    t!(UntUnits, true, Some(&[]), [UntUnits::A(1), UntUnits::N, UntUnits::M], []);
    t!(Other, true, Some(&[]), [Other::A { a: 1 }, Other::Rest], []);
    t!(OtherAdj, true, Some(&[]), [OtherAdj::A { a: 1 }, OtherAdj::Rest], []);
    t!(IntRen, true, Some(&[]), [IntRen::Vv { a: 1 }, IntRen::New(inner.clone()), IntRen::Unit, IntRen::Z { a_b: 1 }], [{ "t": "vv", "a": 1 }, { "t": "new", "x_one": 1 }, { "t": "unit" }, { "t": "de", "a_b": 1 }]);
    t!(IntRen2, true, Some(&[]), [IntRen2::Vv { a_b: 1, f: inner.clone() }, IntRen2::Unit], [{ "t": "vv", "aB": 1, "x_one": 1 }, { "t": "unit" }]);
    t!(Deep, false, None, [Deep::Leaf(Internal::UnitOne), Deep::Node { left: Box::new(None), kids: vec![Deep::Leaf(Internal::New(inner.clone()))] }, Deep::Node { left: Box::new(Some(Deep::Leaf(Internal::UnitOne))), kids: vec![] }], []);
}
