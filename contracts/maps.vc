@@ json_schema_impls/maps.rs: C19
@verus
// ---- std
/// std's BTreeSet<&str> behind the operations used
#[verifier::external_body]
pub struct VStrSet<'a>(std::collections::BTreeSet<&'a str>);
impl<'a> VStrSet<'a> {
  pub uninterp spec fn s(&self) -> Set<Str>;
  #[verifier::external_body] pub fn new() -> (r: VStrSet<'a>) ensures r.s() == Set::<Str>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: &'a str) -> (r: bool) ensures final(self).s() == old(self).s().insert(x@) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.s() == Set::<Str>::empty()) { unimplemented!() }
}
pub open spec fn strs(s: Seq<&str>) -> Seq<Str> { s.map_values(|x: &str| x@) }
impl<'a> VsIntoIter for VStrSet<'a> {
  type Out = Vec<&'a str>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<&'a str>) ensures strs(r@).to_set() == self.s() { unimplemented!() }
}
pub open spec fn mvs(s: Seq<&Map<String, Value>>) -> Seq<VM> { s.map_values(|x: &Map<String, Value>| mv(*x)) }
impl<'a, 'b> VsIntoIter for &'a mut Vec<&'b Map<String, Value>> {
  type Out = Vec<&'a mut &'b Map<String, Value>>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<&'a mut &'b Map<String, Value>>)
    ensures r@.len() == old(self)@.len(), final(self)@.len() == r@.len(),
      forall|i: int| #![trigger r@[i]] #![trigger final(self)@[i]] 0 <= i < r@.len() ==> *r@[i] == old(self)@[i] && final(self)@[i] == *final(r@[i]),
  { unimplemented!() }
}
impl<'b> VStrExt2 for Cow<'b, str> {
  #[verifier::external_body] fn v_replace(&self, from: &str, to: &str) -> (r: String) ensures from@.len() == 2 && to@.len() == 1 ==> r@ == rep2(cowv(*self), from@[0], from@[1], to@[0]) { self.replace(from, to) }
  #[verifier::external_body] fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>) { unimplemented!() }
  #[verifier::external_body] fn vs_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { unimplemented!() }
  #[verifier::external_body] fn v_contains(&self, c: char) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&str>) { unimplemented!() }
}
impl Clone for Schema {
  // #[derive(Clone)]
  #[verifier::external_body]
  fn clone(&self) -> (r: Schema) ensures sv(r) == sv(*self) { Schema(self.0.clone()) }
}
/// the u64 a JSON number is, if it is one
pub uninterp spec fn u64_of(n: int) -> Option<u64>;
pub assume_specification [ Value::as_u64 ] (v: &Value) -> (r: Option<u64>) ensures r == (match vv(*v) { V::Num(n) => u64_of(n), _ => None });

// ---- the alternatives of a key schema
pub open spec fn all_obj(a: Seq<V>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Obj }
pub open spec fn objs(a: Seq<V>) -> Seq<VM> { a.map_values(|x: V| x->Obj_0) }
pub open spec fn alternatives(kv: V) -> Option<Seq<VM>> {
  match kv {
    V::Obj(m) => match mget(m, "anyOf"@) { Some(V::Arr(a)) => Some(if all_obj(a) { objs(a) } else { seq![m] }), _ => Some(seq![m]) },
    _ => None,
  }
}
/// what a reference into the definitions refers to
pub open spec fn def_name(r: Str, path: Str) -> Option<Str> {
  let p = "#"@ + (path + "/"@);
  if p.is_prefix_of(r) { let e = pd(encode_utf8(r.skip(p.len() as int))); if valid_utf8(e) { Some(rep2(rep2(decode_utf8(e), '~', '1', '/'), '~', '0', '~')) } else { None } } else { None }
}
pub open spec fn deref_alt(m: VM, path: Str, defs: VM) -> VM {
  match mget(m, "$ref"@) {
    Some(V::Str(r)) => match def_name(r, path) { Some(n) => match mget(defs, n) { Some(V::Obj(d)) => d, _ => m }, None => m },
    _ => m,
  }
}
// ---- the keys an alternative stands for
pub enum Keys { Pattern(Str), Names(Seq<V>), Unsigned, Signed, Any }
pub open spec fn str_at(m: VM, k: Str) -> Option<Str> { match mget(m, k) { Some(V::Str(s)) => Some(s), _ => None } }
pub open spec fn all_str(a: Seq<V>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Str }
pub open spec fn enum_at(m: VM) -> Option<Seq<V>> { match mget(m, "enum"@) { Some(V::Arr(a)) => if all_str(a) { Some(a) } else { None }, _ => None } }
pub open spec fn min0(m: VM) -> bool { match mget(m, "minimum"@) { Some(V::Num(n)) => u64_of(n) == Some(0u64), _ => false } }
pub open spec fn keys_of(m: VM) -> Keys {
  if str_at(m, "type"@) == Some("string"@) {
    match str_at(m, "pattern"@) { Some(p) => Keys::Pattern(p), None => match enum_at(m) { Some(a) => Keys::Names(a), None => Keys::Any } }
  } else if str_at(m, "type"@) == Some("integer"@) { if min0(m) { Keys::Unsigned } else { Keys::Signed } }
  else { Keys::Any }
}
pub open spec fn strs_of(a: Seq<V>) -> Seq<Str> { a.map_values(|x: V| x->Str_0) }
pub open spec fn txt_set(a: Seq<V>) -> Set<Str> { strs_of(a).to_set() }
pub proof fn lemma_take_set(s: Seq<Str>, i: int)
  requires 0 <= i < s.len()
  ensures s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i])
{
  assert(s.take(i + 1) =~= s.take(i).push(s[i]));
  assert forall|x: Str| s.take(i + 1).to_set().contains(x) == s.take(i).to_set().insert(s[i]).contains(x) by {
    if s.take(i).contains(x) { let k = choose|k: int| 0 <= k < i && s[k] == x; assert(s.take(i + 1)[k] == x); }
    if x == s[i] { assert(s.take(i + 1)[i] == x); }
    if s.take(i + 1).contains(x) { let k = choose|k: int| 0 <= k < i + 1 && #[trigger] s.take(i + 1)[k] == x; if k < i { assert(s.take(i)[k] == x); } }
  }
  assert(s.take(i + 1).to_set() =~= s.take(i).to_set().insert(s[i]));
}
pub open spec fn any_of(q: Seq<VM>, n: int) -> bool decreases n { n > 0 && (any_of(q, n - 1) || keys_of(q[n - 1]) is Any) }
pub open spec fn pats(q: Seq<VM>, n: int) -> Set<Str> decreases n { if n <= 0 { Set::empty() } else { match keys_of(q[n - 1]) { Keys::Pattern(p) => pats(q, n - 1).insert(p), _ => pats(q, n - 1) } } }
pub open spec fn names(q: Seq<VM>, n: int) -> Set<Str> decreases n { if n <= 0 { Set::empty() } else { match keys_of(q[n - 1]) { Keys::Names(a) => names(q, n - 1).union(txt_set(a)), _ => names(q, n - 1) } } }
/// 0: no integers, 1: unsigned ones, 2: all
pub open spec fn ints(q: Seq<VM>, n: int) -> int decreases n { if n <= 0 { 0 } else { match keys_of(q[n - 1]) { Keys::Unsigned => if ints(q, n - 1) > 1 { ints(q, n - 1) } else { 1 }, Keys::Signed => 2, _ => ints(q, n - 1) } } }
pub open spec fn with_digits(s: Set<Str>, i: int) -> Set<Str> { if i == 1 { s.insert("^\\d+$"@) } else if i == 2 { s.insert("^-?\\d+$"@) } else { s } }
/// each of these names with the schema v
pub open spec fn all_to(s: Set<Str>, v: V) -> VM { SMap::new(s, |k: Str| v) }
pub open spec fn ins_set(m: VM, k: Str, s: Set<Str>, v: V) -> VM { if s == Set::<Str>::empty() { m } else { m.insert(k, V::Obj(all_to(s, v))) } }
/// the schema of a map whose keys are described by q and whose values by v
pub open spec fn map_of(q: Seq<VM>, v: V) -> VM {
  let n = q.len() as int;
  let m = SMap::<Str, V>::empty().insert("type"@, V::Str("object"@)).insert("additionalProperties"@, if any_of(q, n) { v } else { V::Bool(false) });
  ins_set(ins_set(m, "patternProperties"@, with_digits(pats(q, n), ints(q, n)), v), "properties"@, names(q, n), v)
}
pub open spec fn map_schema_of(kv: V, v: V, path: Str, defs: VM) -> V {
  match alternatives(kv) {
    Some(q) => V::Obj(map_of(q.map_values(|m: VM| deref_alt(m, path, defs)), v)),
    None => V::Obj(SMap::<Str, V>::empty().insert("additionalProperties"@, v).insert("type"@, V::Str("object"@))),
  }
}
@type json_schema_impls/maps.rs IntegerSupport
@fn json_schema_impls/maps.rs impl JsonSchema for BTreeMap<K, V> / json_schema
@as map_json_schema
@kind free
@sig fn map_json_schema<K: ?Sized + JsonSchema, W: ?Sized + JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@subst V=W
@call BTreeSet::new=>VStrSet::new
@attr #[verifier::rlimit(200)] #[verifier::loop_isolation(false)]
@nloops 7
@spec
  requires old(generator).wf()
  ensures is_schema(sv(ret)), grows(&*old(generator), &*final(generator)),
    exists|kv: V, v: V, g1: SchemaGenerator| #![trigger K::js_ok(kv), sub_ok::<W>(&g1, &*final(generator), v)] K::js_ok(kv) && sub_ok::<W>(&g1, &*final(generator), v) && is_schema(v) && grows(&*old(generator), &g1)
      && same(sv(ret), map_schema_of(kv, v, stripped(old(generator).settings.definitions_path.cv()), final(generator).defs()))
@start
broadcast use group_cat;
let ghost g0 = *generator;
@loop 0
  invariant it0.seq() == __q0,
    __ok0 == (forall|i: int| 0 <= i < it0.index() ==> (#[trigger] qv(__q0)[i]) is Obj),
    __ok0 ==> mvs(__r0@) =~= objs(qv(__q0).take(it0.index() as int))
@loopstart 0
let ghost r0 = __r0@;
@loopend 0
proof { assert(qv(__q0)[it0.index() as int] == vv(*__e0)); if __ok0 { assert(mvs(__r0@) =~= mvs(r0).push(vv(*__e0)->Obj_0)); assert(qv(__q0).take(it0.index() + 1) =~= qv(__q0).take(it0.index() as int).push(vv(*__e0))); } }
@afterloop 0
proof { assert(qv(__q0) =~= av(a@)); assert(qv(__q0).take(__q0.len() as int) =~= qv(__q0)); }
@loop 1
  invariant it1.seq() == __q1,
    forall|i: int| 0 <= i < it1.index() ==> mv(**final(#[trigger] __q1[i])) == deref_alt(mv(**__q1[i]), stripped(g0.settings.definitions_path.cv()), generator.defs())
@loopstart 1
let ghost m1 = mv(**__e1);
proof { reveal_strlit("~0"); reveal_strlit("~1"); reveal_strlit("~"); reveal_strlit("/"); }
@afterloop 1
let ghost q = mvs(options@);
proof { assert(q =~= (alternatives(sv(key_schema))->Some_0).map_values(|m: VM| deref_alt(m, stripped(g0.settings.definitions_path.cv()), generator.defs()))); }
@loop 2
  invariant it2.seq() == __q2, additional_properties == any_of(q, it2.index() as int), support_integers.rank() == ints(q, it2.index() as int),
    patterns.s() == pats(q, it2.index() as int), properties.s() == names(q, it2.index() as int)
@loopstart 2
let ghost j = it2.index() as int;
let ghost n0 = properties.s();
proof { assert(q[j] == mv(*__e2)); }
@afterloop 2
proof { assert(q.len() == __q2.len()); assert(q.len() == q.len() as int); }
@loop 3
  invariant it3.seq() == __q3,
    __ok3 == (forall|i: int| 0 <= i < it3.index() ==> (#[trigger] qv(__q3)[i]) is Str),
    __ok3 ==> strs(__r3@) =~= strs_of(qv(__q3).take(it3.index() as int))
@loopstart 3
let ghost r0 = __r3@;
@loopend 3
proof { assert(qv(__q3)[it3.index() as int] == vv(*__e3)); if __ok3 { assert(strs(__r3@) =~= strs(r0).push(vv(*__e3)->Str_0)); assert(qv(__q3).take(it3.index() + 1) =~= qv(__q3).take(it3.index() as int).push(vv(*__e3))); } }
@afterloop 3
proof { assert(qv(__q3) =~= av(a@)); assert(qv(__q3).take(__q3.len() as int) =~= qv(__q3)); }
@loop 4
  invariant it4.seq() == __q4, properties.s() =~= n0.union(strs(__q4).take(it4.index() as int).to_set())
@loopend 4
proof { lemma_take_set(strs(__q4), it4.index() as int); }
@afterloop 4
proof { assert(strs(__q4).take(__q4.len() as int) =~= strs(__q4)); }
@loop 5
  invariant it5.seq() == __q5, mv(patterns_map) =~= all_to(strs(__q5).take(it5.index() as int).to_set(), sv(value_schema))
@loopend 5
proof { lemma_take_set(strs(__q5), it5.index() as int); }
@afterloop 5
proof { assert(strs(__q5).take(__q5.len() as int) =~= strs(__q5)); }
@loop 6
  invariant it6.seq() == __q6, mv(properties_map) =~= all_to(strs(__q6).take(it6.index() as int).to_set(), sv(value_schema))
@loopend 6
proof { lemma_take_set(strs(__q6), it6.index() as int); }
@afterloop 6
proof { assert(strs(__q6).take(__q6.len() as int) =~= strs(__q6)); }
@verus
// ---- C19
/// regular expressions, left abstract but for the two patterns of decimal integers
pub uninterp spec fn pm(pattern: Str, name: Str) -> bool;
pub open spec fn is_digits(s: Str) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub open spec fn is_decimal(s: Str) -> bool { is_digits(s) || s.len() > 0 && s[0] == '-' && is_digits(s.skip(1)) }
pub axiom fn ax_pm(name: Str) ensures is_digits(name) ==> pm("^\\d+$"@, name), is_decimal(name) ==> pm("^-?\\d+$"@, name);
/// the property names a key alternative allows
pub open spec fn allows(m: VM, name: Str) -> bool {
  if str_at(m, "type"@) == Some("string"@) {
    (match str_at(m, "pattern"@) { Some(p) => pm(p, name), None => true }) && (match mget(m, "enum"@) { Some(V::Arr(a)) => a.contains(V::Str(name)), _ => true })
  } else if str_at(m, "type"@) == Some("integer"@) { if min0(m) { is_digits(name) } else { is_decimal(name) } }
  else { true }
}
/// what the schema s says about the property of that name: the schemas it has to meet
pub open spec fn listed(s: VM, name: Str) -> bool { mget(s, "properties"@) matches Some(V::Obj(p)) && p.dom().contains(name) }
pub open spec fn some_pat(p: VM, name: Str) -> bool { exists|k: Str| #[trigger] p.dom().contains(k) && pm(k, name) }
pub open spec fn patterned(s: VM, name: Str) -> bool { match mget(s, "patternProperties"@) { Some(V::Obj(p)) => some_pat(p, name), _ => false } }
pub open spec fn prop_is(s: VM, name: Str, v: V) -> bool {
  &&& mget(s, "properties"@) matches Some(V::Obj(p)) ==> p.dom().contains(name) ==> p[name] == v
  &&& mget(s, "patternProperties"@) matches Some(V::Obj(p)) ==> forall|k: Str| #[trigger] p.dom().contains(k) ==> p[k] == v
  &&& listed(s, name) || patterned(s, name) || !s.dom().contains("additionalProperties"@) || mget(s, "additionalProperties"@) == Some(v)
}
proof fn lemma_pat(s: VM, ps: Set<Str>, v: V, p: Str, name: Str)
  requires mget(s, "patternProperties"@) == (if ps == Set::<Str>::empty() { None } else { Some(V::Obj(all_to(ps, v))) }), ps.contains(p), pm(p, name)
  ensures patterned(s, name)
{ assert(ps != Set::<Str>::empty()); assert(all_to(ps, v).dom().contains(p)); }
pub proof fn lemma_alt(q: Seq<VM>, n: int, j: int)
  requires 0 <= j < n <= q.len()
  ensures match keys_of(q[j]) {
    Keys::Pattern(p) => pats(q, n).contains(p),
    Keys::Names(a) => forall|x: Str| #[trigger] txt_set(a).contains(x) ==> names(q, n).contains(x),
    Keys::Unsigned => ints(q, n) >= 1, Keys::Signed => ints(q, n) == 2, Keys::Any => any_of(q, n) }
  decreases n
{ if j < n - 1 { lemma_alt(q, n - 1, j); } lemma_ints(q, n); lemma_ints(q, n - 1); }
pub proof fn lemma_ints(q: Seq<VM>, n: int) ensures n <= q.len() ==> 0 <= ints(q, n) <= 2 decreases n { if n > 0 { lemma_ints(q, n - 1); } }
pub proof fn lemma_no_any(q: Seq<VM>, n: int) requires 0 <= n <= q.len(), any_of(q, n) ensures exists|j: int| 0 <= j < n && keys_of(#[trigger] q[j]) is Any decreases n
{ if any_of(q, n - 1) { lemma_no_any(q, n - 1); let j = choose|j: int| 0 <= j < n - 1 && keys_of(#[trigger] q[j]) is Any; assert(keys_of(q[j]) is Any); } else { assert(keys_of(q[n - 1]) is Any); } }
/// every name some alternative allows has to meet the value schema and nothing else
pub proof fn theorem_keys_covered(q: Seq<VM>, v: V, j: int, name: Str)
  requires 0 <= j < q.len(), allows(q[j], name)
  ensures prop_is(map_of(q, v), name, v)
{
  lemma_kwid();
  let n = q.len() as int;
  let s = map_of(q, v);
  let ps = with_digits(pats(q, n), ints(q, n));
  lemma_alt(q, n, j); ax_pm(name); lemma_ints(q, n);
  assert(mget(s, "properties"@) == if names(q, n) == Set::<Str>::empty() { None } else { Some(V::Obj(all_to(names(q, n), v))) });
  assert(mget(s, "patternProperties"@) == if ps == Set::<Str>::empty() { None } else { Some(V::Obj(all_to(ps, v))) });
  assert(mget(s, "additionalProperties"@) == Some(if any_of(q, n) { v } else { V::Bool(false) }));
  match keys_of(q[j]) {
    Keys::Pattern(p) => { assert(ps.contains(p)); lemma_pat(s, ps, v, p, name); }
    Keys::Names(a) => { let i = choose|i: int| 0 <= i < a.len() && a[i] == V::Str(name); assert(strs_of(a)[i] == name); assert(txt_set(a).contains(name)); assert(all_to(names(q, n), v).dom().contains(name)); assert(listed(s, name)); }
    Keys::Unsigned => { let p = if ints(q, n) == 1 { "^\\d+$"@ } else { "^-?\\d+$"@ }; assert(ps.contains(p)); lemma_pat(s, ps, v, p, name); }
    Keys::Signed => { assert(ps.contains("^-?\\d+$"@)); lemma_pat(s, ps, v, "^-?\\d+$"@, name); }
    Keys::Any => {}
  }
}
/// other names are forbidden only if every alternative restricts them
pub proof fn theorem_closed(q: Seq<VM>, v: V)
  requires v != V::Bool(false)
  ensures mget(map_of(q, v), "additionalProperties"@) == Some(V::Bool(false)) <==> (forall|j: int| 0 <= j < q.len() ==> !(keys_of(#[trigger] q[j]) is Any))
{
  lemma_kwid();
  let n = q.len() as int;
  assert(mget(map_of(q, v), "additionalProperties"@) == Some(if any_of(q, n) { v } else { V::Bool(false) }));
  if any_of(q, n) { lemma_no_any(q, n); } else { assert forall|j: int| 0 <= j < q.len() implies !(keys_of(#[trigger] q[j]) is Any) by { lemma_alt(q, n, j); } }
}
