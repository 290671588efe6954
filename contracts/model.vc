@@ Deep value model V of serde_json::Value and the axioms that tie it to the real types.
@verus
pub mod model {
use vstd::prelude::*;
use serde_json::{Map, Value};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExNumber(serde_json::Number);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExErr(serde_json::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct ExMap<K, V>(serde_json::Map<K, V>);
#[verifier::external_type_specification]
pub struct ExValue(serde_json::Value);

pub type Str = Seq<char>;
pub type VM = vstd::map::Map<Seq<char>, V>;
/// equal, the entries of an object in whatever order they were inserted
pub open spec fn same(a: V, b: V) -> bool { match a { V::Obj(x) => b is Obj && x =~= b->Obj_0, _ => a == b } }
pub enum V { Null, Bool(bool), Num(int), Str(Seq<char>), Arr(Seq<V>), Obj(vstd::map::Map<Seq<char>, V>) }

pub uninterp spec fn mv(m: Map<String, Value>) -> VM;
pub uninterp spec fn mkeys(m: Map<String, Value>) -> Seq<Seq<char>>;
/// the entries of a map in iteration order; one of them by name
pub uninterp spec fn entries(m: Map<String, Value>) -> Seq<(Str, Value)>;
pub uninterp spec fn entry(m: Map<String, Value>, k: Str) -> Value;
pub open spec fn ents(q: Seq<(&String, &Value)>) -> Seq<(Str, Value)> { q.map_values(|e: (&String, &Value)| (e.0@, *e.1)) }
pub axiom fn ax_entries(m: Map<String, Value>)
  ensures entries(m).len() == mkeys(m).len(), forall|i: int| 0 <= i < mkeys(m).len() ==> (#[trigger] entries(m)[i]).0 == mkeys(m)[i] && vv(entries(m)[i].1) == mv(m)[mkeys(m)[i]] && entry(m, mkeys(m)[i]) == entries(m)[i].1;
pub uninterp spec fn numview(m: serde_json::Number) -> int;
pub uninterp spec fn vv(x: Value) -> V;
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub open spec fn av(a: Seq<Value>) -> Seq<V> { a.map_values(|x: Value| vv(x)) }

pub broadcast axiom fn ax_vv(x: Value)
  ensures #[trigger] vv(x) == (match x {
     Value::Null => V::Null,
     Value::Bool(b) => V::Bool(b),
     Value::Number(n) => V::Num(numview(n)),
     Value::String(s) => V::Str(s@),
     Value::Array(a) => V::Arr(av(a@)),
     Value::Object(o) => V::Obj(mv(o)),
  });
/// the iteration order of a map lists each of its keys exactly once
pub broadcast axiom fn ax_mkeys(m: Map<String, Value>)
  ensures #[trigger] mkeys(m).no_duplicates(), mkeys(m).to_set() == mv(m).dom(), mkeys(m).len() == mv(m).len();
pub broadcast axiom fn ax_str_ext(a: &str, b: &str)
  requires #[trigger] a@ == #[trigger] b@
  ensures a == b;

pub uninterp spec fn kv<Q: ?Sized>(x: &Q) -> Seq<char>;
pub broadcast axiom fn ax_kv_str(s: &str) ensures #[trigger] kv::<str>(s) == s@;
pub broadcast axiom fn ax_kv_string(s: &String) ensures #[trigger] kv::<String>(s) == s@;

pub broadcast axiom fn ax_eq_value_str(x: &Value, y: &str)
  ensures #[trigger] <Value as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(x, y) == (vv(*x) == V::Str(y@));
pub broadcast axiom fn ax_eq_value_value(x: &Value, y: &Value)
  ensures #[trigger] <Value as vstd::std_specs::cmp::PartialEqSpec<Value>>::eq_spec(x, y) == (vv(*x) == vv(*y));

pub broadcast axiom fn ax_eq_string_str(x: &String, y: &str)
  ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(x, y) == (x@ == y@);

pub open spec fn mview(x: &mut String) -> Seq<char> { (*x)@ }
pub broadcast axiom fn ax_eq_mutstring_str(x: &&mut String, y: &&str)
  ensures #[trigger] <&mut String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(x, y) == (mview(*x) == y@);

/// the `==` of these pairs of types is a pure function of its operands (called at the start of every extracted function)
pub axiom fn obeys_facts()
  ensures <Value as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(),
    <Value as vstd::std_specs::cmp::PartialEqSpec<Value>>::obeys_eq_spec(),
    <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(),
    <&mut String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec();
/// the position of key k in the iteration order
pub open spec fn midx(m: Map<String, Value>, k: Seq<char>) -> int { mkeys(m).index_of(k) }
pub broadcast proof fn lemma_midx(m: Map<String, Value>, k: Seq<char>)
  requires mv(m).dom().contains(k)
  ensures 0 <= #[trigger] midx(m, k) < mkeys(m).len(), mkeys(m)[midx(m, k)] == k
{ ax_mkeys(m); assert(mkeys(m).to_set().contains(k)); assert(mkeys(m).contains(k)); }
/// the values seen by an iteration over references
pub open spec fn qv(s: Seq<&Value>) -> Seq<V> { s.map_values(|x: &Value| vv(*x)) }
pub broadcast proof fn lemma_qv(s: Seq<&Value>) ensures #[trigger] qv(s) == av(derefs(s)) { assert(qv(s) =~= av(derefs(s))); }

pub broadcast proof fn lemma_av_push(s: Seq<Value>, x: Value) ensures #[trigger] av(s.push(x)) == av(s).push(vv(x)) { assert(av(s.push(x)) =~= av(s).push(vv(x))); }
pub broadcast proof fn lemma_av_len(s: Seq<Value>) ensures (#[trigger] av(s)).len() == s.len(), s.len() == 0 ==> av(s) == Seq::<V>::empty() { if s.len() == 0 { assert(av(s) =~= Seq::<V>::empty()); } }
pub broadcast proof fn lemma_remove_absent(m: VM, k: Seq<char>) requires !m.dom().contains(k) ensures #[trigger] m.remove(k) == m { assert(m.remove(k) =~= m); }
pub broadcast proof fn lemma_insert_same(m: VM, k: Seq<char>) requires m.dom().contains(k) ensures #[trigger] m.insert(k, m[k]) == m { assert(m.insert(k, m[k]) =~= m); }
pub broadcast proof fn lemma_remove_insert(m: VM, k: Seq<char>, v: V) ensures #[trigger] m.remove(k).insert(k, v) == m.insert(k, v) { assert(m.remove(k).insert(k, v) =~= m.insert(k, v)); }
pub broadcast proof fn lemma_insert_insert(m: VM, k: Seq<char>, v: V, w: V) ensures #[trigger] m.insert(k, v).insert(k, w) == m.insert(k, w) { assert(m.insert(k, v).insert(k, w) =~= m.insert(k, w)); }
pub broadcast group group_model {
  lemma_av_push, lemma_av_len, lemma_remove_absent, lemma_insert_same, lemma_remove_insert, lemma_insert_insert,
  ax_vv, ax_mkeys, lemma_midx, lemma_qv, ax_str_ext, ax_kv_str, ax_kv_string, ax_eq_value_str, ax_eq_value_value, ax_eq_string_str, ax_eq_mutstring_str,
}
}
pub use model::*;
use serde_json::{Map, Value, Number, Error};
use vstd::map::Map as SMap;
use core::borrow::Borrow;
use core::hash::Hash;
broadcast use model::group_model;
