@@ the trait as generated code sees it, and what the schemas generated by #[derive(JsonSchema)] accept (C23)
@type generate.rs Contract
@verus
impl PartialEq for Contract {
  // #[derive(PartialEq)]
  #[verifier::external_body]
  fn eq(&self, o: &Contract) -> bool { unimplemented!() }
}
pub axiom fn ax_eq_contract()
  ensures <Contract as vstd::std_specs::cmp::PartialEqSpec<Contract>>::obeys_eq_spec(),
   forall|a: Contract, b: Contract| #[trigger] <Contract as vstd::std_specs::cmp::PartialEqSpec<Contract>>::eq_spec(&a, &b) == (a == b);
@fn generate.rs impl Contract / is_deserialize
@spec
  ensures ret == (*self is Deserialize)
@start
proof { ax_eq_contract(); }
@fn generate.rs impl Contract / is_serialize
@spec
  ensures ret == (*self is Serialize)
@start
proof { ax_eq_contract(); }
@verus
pub struct Settings { pub untagged_enum_variant_titles: bool }
#[verifier::external_body]
pub struct SchemaGenerator { _p: () }
impl SchemaGenerator {
  /// generating for the Serialize contract?
  pub uninterp spec fn ser(&self) -> bool;
  #[verifier::external_body]
  pub fn contract(&self) -> (r: &Contract) ensures (*r is Serialize) == self.ser() { unimplemented!() }
  #[verifier::external_body]
  pub fn settings(&self) -> (r: &Settings) { unimplemented!() }
  // C03: the schema of T, or a reference to it, which accepts the same
  #[verifier::external_body]
  pub fn subschema_for<T: ?Sized + JsonSchema>(&mut self) -> (ret: Schema)
    ensures is_schema(sv(ret)), T::shape(sv(ret)), final(self).ser() == old(self).ser(), forall|x: V| #[trigger] ok(sv(ret), x) == T::val(old(self).ser(), x)
  { unimplemented!() }
}
pub trait JsonSchema {
  /// the JSON values the type's schema accepts, under the Serialize or the Deserialize contract
  spec fn val(ser: bool, x: V) -> bool;
  /// the same, without the null of an Option
  spec fn some_val(ser: bool, x: V) -> bool;
  spec fn is_opt() -> bool;
  /// what is known of the schema (or the reference to it) itself
  spec fn shape(v: V) -> bool;
  fn json_schema(generator: &mut SchemaGenerator) -> (ret: Schema)
    ensures is_schema(sv(ret)), final(generator).ser() == old(generator).ser(), forall|x: V| #[trigger] ok(sv(ret), x) == Self::val(old(generator).ser(), x);
  fn _schemars_private_non_optional_json_schema(generator: &mut SchemaGenerator) -> (ret: Schema)
    ensures is_schema(sv(ret)), final(generator).ser() == old(generator).ser(), forall|x: V| #[trigger] ok(sv(ret), x) == Self::some_val(old(generator).ser(), x);
  fn _schemars_private_is_option() -> (ret: bool) ensures ret == Self::is_opt();
}
pub open spec fn null_schema() -> V { V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("null"@))) }
impl JsonSchema for () {
  open spec fn val(ser: bool, x: V) -> bool { x is Null }
  open spec fn some_val(ser: bool, x: V) -> bool { x is Null }
  open spec fn is_opt() -> bool { false }
  open spec fn shape(v: V) -> bool { v == null_schema() }
  // C22 and C12 have the real one
  #[verifier::external_body] fn json_schema(generator: &mut SchemaGenerator) -> (ret: Schema) { unimplemented!() }
  #[verifier::external_body] fn _schemars_private_non_optional_json_schema(generator: &mut SchemaGenerator) -> (ret: Schema) { unimplemented!() }
  #[verifier::external_body] fn _schemars_private_is_option() -> (ret: bool) { unimplemented!() }
}
impl VToValue for usize { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for usize { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
/// Schema::from
pub trait VSchemaFrom: Sized { spec fn sf(&self) -> V; fn to_schema(self) -> (r: Schema) ensures sv(r) == self.sf(), is_schema(sv(r)); }
impl VSchemaFrom for bool { open spec fn sf(&self) -> V { V::Bool(*self) } fn to_schema(self) -> (r: Schema) { schema_from_bool(self) } }
impl VSchemaFrom for Map<String, Value> { open spec fn sf(&self) -> V { V::Obj(mv(*self)) } fn to_schema(self) -> (r: Schema) { schema_from_map(self) } }
pub fn schema_from<T: VSchemaFrom>(x: T) -> (r: Schema) ensures sv(r) == x.sf(), is_schema(sv(r)) { x.to_schema() }
pub trait VDefault: Sized { fn v_default() -> (r: Self); }
/// the value as JSON if its type can be serialized
#[verifier::external_body]
pub fn v_maybe_to_value<T>(x: T) -> (r: Option<Value>) { unimplemented!() }
/// a user's skip_serializing_if
#[verifier::external_body]
pub fn skip_it<T>(x: &T) -> bool { unimplemented!() }
// ---- the data model of serde: what a struct, a tuple, a variant looks like in JSON
pub open spec fn has(x: V, k: Str) -> bool { x is Obj && x->Obj_0.dom().contains(k) }
pub open spec fn at(x: V, k: Str) -> V { x->Obj_0[k] }
/// a field of serde's name k with value p; it may be left out if opt
pub open spec fn field(x: V, k: Str, opt: bool, p: spec_fn(V) -> bool) -> bool { if has(x, k) { p(at(x, k)) } else { opt } }
pub open spec fn v_of<T: JsonSchema>(ser: bool) -> spec_fn(V) -> bool { |x: V| T::val(ser, x) }
pub open spec fn some_of<T: JsonSchema>(ser: bool) -> spec_fn(V) -> bool { |x: V| T::some_val(ser, x) }
/// {k: ..} and nothing else
pub open spec fn single(x: V, k: Str) -> bool { has(x, k) && forall|j: Str| #[trigger] x->Obj_0.dom().contains(j) ==> j == k }
pub open spec fn tagged(x: V, t: Str, v: Str) -> bool { has(x, t) && at(x, t) == V::Str(v) }
/// serde reads a missing field as None if its type is an Option, and otherwise wants it; it writes every field
pub open spec fn opt_in<T: JsonSchema>(ser: bool) -> bool { !ser && T::is_opt() }

// ---- what the schemas built accept, step by step
pub open spec fn pr(m: VM) -> VM { obj_at(m, "properties"@) }
pub open spec fn rq(m: VM) -> Seq<V> { arr_at(m, "required"@) }
pub open spec fn cl(m: VM) -> bool { m.dom().contains("additionalProperties"@) }
pub open spec fn wf_kw(k: Str) -> bool { k == "type"@ || k == "properties"@ || k == "required"@ || k == "additionalProperties"@ }
/// {"type": "object", "properties": {..}, "required": [..], "additionalProperties": false}
#[verifier::opaque]
pub open spec fn wfobj(m: VM) -> bool {
  &&& mget(m, "type"@) == Some(V::Str("object"@))
  &&& m.dom().contains("properties"@) ==> m["properties"@] is Obj
  &&& m.dom().contains("required"@) ==> m["required"@] is Arr
  &&& cl(m) ==> m["additionalProperties"@] == V::Bool(false)
  &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> wf_kw(k)
}
#[verifier::opaque]
pub open spec fn all_in(x: V, req: Seq<V>) -> bool { forall|i: int| 0 <= i < req.len() ==> (#[trigger] req[i]) is Str && has(x, req[i]->Str_0) }
#[verifier::opaque]
pub open spec fn each_ok(x: V, props: VM) -> bool { forall|k: Str| #[trigger] props.dom().contains(k) ==> (has(x, k) ==> ok(props[k], at(x, k))) }
pub open spec fn no_more(x: V, props: VM) -> bool { forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> props.dom().contains(k) }
pub broadcast proof fn lemma_wfobj(m: VM, x: V) requires wfobj(m)
  ensures #[trigger] ok(V::Obj(m), x) == (x is Obj && all_in(x, rq(m)) && each_ok(x, pr(m)) && (cl(m) ==> no_more(x, pr(m))))
{
  reveal(wfobj); reveal(all_in); reveal(each_ok); lemma_kwid();
  assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { assert(wf_kw(k)); } }
  lemma_ok(m, x);
  assert(!m.dom().contains("anyOf"@) && !m.dom().contains("oneOf"@) && !m.dom().contains("not"@) && !m.dom().contains("const"@) && !m.dom().contains("enum"@));
  if x is Obj { let o = x->Obj_0; let props = pr(m);
    if props_ok(m, x) { assert forall|k: Str| #[trigger] props.dom().contains(k) && has(x, k) implies ok(props[k], at(x, k)) by { assert(prop_ok(m, k, o[k])); }
      assert forall|k: Str| #[trigger] o.dom().contains(k) && cl(m) implies props.dom().contains(k) by { assert(prop_ok(m, k, o[k])); lemma_bool(false, o[k]); } }
    if each_ok(x, props) && (cl(m) ==> no_more(x, props)) { assert forall|k: Str| #[trigger] o.dom().contains(k) implies prop_ok(m, k, o[k]) by { } }
    assert(props_ok(m, x) == (each_ok(x, props) && (cl(m) ==> no_more(x, props))));
    assert(k_required_ok(m, x) == all_in(x, rq(m))) by {
      if m.dom().contains("required"@) { let a = rq(m);
        if k_required_ok(m, x) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]) is Str && has(x, a[i]->Str_0) by { } }
        if all_in(x, a) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]) is Str && o.dom().contains(a[i]->Str_0) by { } } }
    }
  }
}
pub broadcast proof fn lemma_wf0() ensures #[trigger] wfobj(SMap::<Str, V>::empty().insert("type"@, V::Str("object"@))) { reveal(wfobj); }
pub broadcast proof fn lemma_wf0c() ensures #[trigger] wfobj(SMap::<Str, V>::empty().insert("type"@, V::Str("object"@)).insert("additionalProperties"@, V::Bool(false))) { reveal(wfobj); lemma_kwid(); }
pub broadcast proof fn lemma_iop(m: VM, k: Str, opt: bool, s: V) requires wfobj(m)
  ensures wfobj(#[trigger] f_iop(m, k, opt, s)), pr(f_iop(m, k, opt, s)) == pr(m).insert(k, s), rq(f_iop(m, k, opt, s)) == (if opt { rq(m) } else { rq(m).push(V::Str(k)) }), cl(f_iop(m, k, opt, s)) == cl(m)
{ reveal(wfobj); lemma_kwid(); }
pub broadcast proof fn lemma_in_push(x: V, req: Seq<V>, k: Str) ensures #[trigger] all_in(x, req.push(V::Str(k))) == (all_in(x, req) && has(x, k)) {
  reveal(all_in);
  let r = req.push(V::Str(k));
  if all_in(x, r) { assert(r[req.len() as int] == V::Str(k)); assert forall|i: int| 0 <= i < req.len() implies (#[trigger] req[i]) is Str && has(x, req[i]->Str_0) by { assert(r[i] == req[i]); } }
  if all_in(x, req) && has(x, k) { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) is Str && has(x, r[i]->Str_0) by { if i < req.len() { assert(r[i] == req[i]); } } }
}
pub broadcast proof fn lemma_in_front(x: V, req: Seq<V>, k: Str) ensures #[trigger] all_in(x, seq![V::Str(k)] + req) == (all_in(x, req) && has(x, k)) {
  reveal(all_in);
  let r = seq![V::Str(k)] + req;
  if all_in(x, r) { assert(r[0] == V::Str(k)); assert forall|i: int| 0 <= i < req.len() implies (#[trigger] req[i]) is Str && has(x, req[i]->Str_0) by { assert(r[i + 1] == req[i]); } }
  if all_in(x, req) && has(x, k) { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) is Str && has(x, r[i]->Str_0) by { if i > 0 { assert(r[i] == req[i - 1]); } } }
}
pub broadcast proof fn lemma_in0(x: V) ensures #[trigger] all_in(x, Seq::<V>::empty()) { reveal(all_in); }
pub broadcast proof fn lemma_each0(x: V) ensures #[trigger] each_ok(x, SMap::<Str, V>::empty()) { reveal(each_ok); }
pub broadcast proof fn lemma_each_ins(x: V, p: VM, k: Str, s: V) requires !p.dom().contains(k) ensures #[trigger] each_ok(x, p.insert(k, s)) == (each_ok(x, p) && (has(x, k) ==> ok(s, at(x, k)))) {
  reveal(each_ok);
  let q = p.insert(k, s);
  if each_ok(x, q) { assert(q.dom().contains(k)); assert forall|j: Str| #[trigger] p.dom().contains(j) && has(x, j) implies ok(p[j], at(x, j)) by { assert(q.dom().contains(j)); } }
}
// ---- literal objects
pub broadcast proof fn lemma_wf_props(m: VM, p: VM) requires wfobj(m)
  ensures wfobj(#[trigger] m.insert("properties"@, V::Obj(p))), pr(m.insert("properties"@, V::Obj(p))) == p, rq(m.insert("properties"@, V::Obj(p))) == rq(m), cl(m.insert("properties"@, V::Obj(p))) == cl(m)
{ reveal(wfobj); lemma_kwid(); }
pub broadcast proof fn lemma_wf_req(m: VM, a: Seq<V>) requires wfobj(m)
  ensures wfobj(#[trigger] m.insert("required"@, V::Arr(a))), pr(m.insert("required"@, V::Arr(a))) == pr(m), rq(m.insert("required"@, V::Arr(a))) == a, cl(m.insert("required"@, V::Arr(a))) == cl(m)
{ reveal(wfobj); lemma_kwid(); }
pub broadcast proof fn lemma_wf_close(m: VM) requires wfobj(m)
  ensures wfobj(#[trigger] m.insert("additionalProperties"@, V::Bool(false))), pr(m.insert("additionalProperties"@, V::Bool(false))) == pr(m), rq(m.insert("additionalProperties"@, V::Bool(false))) == rq(m), cl(m.insert("additionalProperties"@, V::Bool(false)))
{ reveal(wfobj); lemma_kwid(); }
pub broadcast proof fn lemma_tag(m: VM, t: Str, v: Str, deny: bool) requires wfobj(m)
  ensures wfobj(#[trigger] f_tag(m, t, v, deny)), pr(f_tag(m, t, v, deny)) == pr(m).insert(t, v_const(v)), rq(f_tag(m, t, v, deny)) == seq![V::Str(t)] + rq(m), cl(f_tag(m, t, v, deny)) == cl(m)
{ reveal(wfobj); lemma_kwid(); lemma_dnames(); }
pub broadcast proof fn lemma_tag_unit(m: VM, t: Str, v: Str, deny: bool) requires V::Obj(m) == null_schema()
  ensures wfobj(#[trigger] f_tag(m, t, v, deny)), pr(f_tag(m, t, v, deny)) == SMap::<Str, V>::empty().insert(t, v_const(v)), rq(f_tag(m, t, v, deny)) == Seq::<V>::empty().push(V::Str(t)), cl(f_tag(m, t, v, deny)) == deny
{ reveal(wfobj); lemma_kwid(); lemma_dnames(); assert(seq![V::Str(t)] + Seq::<V>::empty() =~= Seq::<V>::empty().push(V::Str(t))); }
/// keywords that say nothing here are absent
pub open spec fn just(m: VM, a: Str, b: Str) -> bool { forall|k: Str| #[trigger] m.dom().contains(k) ==> k == a || k == b }
pub broadcast proof fn lemma_const(v: Str, x: V) ensures #[trigger] ok(v_const(v), x) == (x == V::Str(v)) {
  lemma_kwid(); lemma_dnames();
  let m = v_const(v)->Obj_0; assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } } lemma_ok(m, x);
}
pub broadcast proof fn lemma_const_lit(v: Str, x: V) ensures #[trigger] ok(V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("string"@)).insert("const"@, V::Str(v))), x) == (x == V::Str(v)) { lemma_const(v, x); }
pub broadcast proof fn lemma_null_lit(x: V) ensures #[trigger] ok(V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("null"@))), x) == (x is Null) { lemma_null(x); }
pub broadcast proof fn lemma_bool(b: bool, x: V) ensures #[trigger] ok(V::Bool(b), x) == b { reveal(ok); }
pub broadcast proof fn lemma_null(x: V) ensures #[trigger] ok(null_schema(), x) == (x is Null) {
  lemma_kwid(); lemma_dnames();
  let m = null_schema()->Obj_0; assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } } lemma_ok(m, x);
}
/// a list of strings
#[verifier::opaque]
pub open spec fn among(a: Seq<V>, x: V) -> bool { a.contains(x) }
#[verifier::opaque]
pub open spec fn strs(a: Seq<V>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] is Str }
pub broadcast proof fn lemma_strs0() ensures #[trigger] strs(Seq::<V>::empty()) { reveal(strs); }
pub broadcast proof fn lemma_strs_push(a: Seq<V>, s: Str) requires strs(a) ensures strs(#[trigger] a.push(V::Str(s))) { reveal(strs); }
pub broadcast proof fn lemma_among0(x: V) ensures !(#[trigger] among(Seq::<V>::empty(), x)) { reveal(among); }
pub broadcast proof fn lemma_among_push(a: Seq<V>, s: V, x: V) ensures #[trigger] among(a.push(s), x) == (among(a, x) || x == s) {
  reveal(among);
  let b = a.push(s);
  if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
  if x == s { assert(b[a.len() as int] == x); }
  if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); } }
}
pub broadcast proof fn lemma_strings(a: Seq<V>, x: V) requires strs(a)
  ensures #[trigger] ok(V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("string"@)).insert("enum"@, V::Arr(a))), x) == among(a, x)
{
  reveal(among); reveal(strs); lemma_kwid(); lemma_dnames();
  let m = SMap::<Str, V>::empty().insert("type"@, V::Str("string"@)).insert("enum"@, V::Arr(a));
  assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } } lemma_ok(m, x);
  if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a[i] is Str); }
}
/// {k: s} and nothing else
pub broadcast proof fn lemma_ext(k: Str, s: V, x: V) ensures #[trigger] ok(v_ext_variant(k, s), x) == (single(x, k) && ok(s, at(x, k))) {
  reveal(wfobj); reveal(all_in); reveal(each_ok); lemma_kwid(); lemma_dnames();
  let m = v_ext_variant(k, s)->Obj_0;
  assert(wfobj(m));
  lemma_wfobj(m, x);
  let p = pr(m); assert(p == SMap::<Str, V>::empty().insert(k, s)); assert(rq(m) == seq![V::Str(k)]);
  if all_in(x, rq(m)) { assert(rq(m)[0] is Str && has(x, rq(m)[0]->Str_0)); }
  if single(x, k) && ok(s, at(x, k)) { assert(all_in(x, rq(m))); assert(each_ok(x, p)); assert(no_more(x, p)); }
  if x is Obj && all_in(x, rq(m)) && each_ok(x, p) && no_more(x, p) { assert(p.dom().contains(k)); assert(single(x, k)); }
}
// ---- alternatives
#[verifier::opaque]
pub open spec fn some_ok(a: Seq<V>, x: V) -> bool { any_of(a, x) }
#[verifier::opaque]
pub open spec fn just_one(a: Seq<V>, x: V) -> bool { one_of(a, x) }
pub broadcast proof fn lemma_some0(x: V) ensures !(#[trigger] some_ok(Seq::<V>::empty(), x)) { reveal(some_ok); }
pub broadcast proof fn lemma_one0(x: V) ensures !(#[trigger] just_one(Seq::<V>::empty(), x)) { reveal(just_one); }
pub broadcast proof fn lemma_some_push(a: Seq<V>, s: V, x: V) ensures #[trigger] some_ok(a.push(s), x) == (some_ok(a, x) || ok(s, x)) {
  reveal(some_ok);
  let b = a.push(s);
  if some_ok(a, x) { let i = choose|i: int| 0 <= i < a.len() && ok(#[trigger] a[i], x); assert(b[i] == a[i]); }
  if ok(s, x) { assert(b[a.len() as int] == s); }
  if some_ok(b, x) { let i = choose|i: int| 0 <= i < b.len() && ok(#[trigger] b[i], x); if i < a.len() { assert(a[i] == b[i]); } }
}
#[verifier::opaque]
pub open spec fn sole(a: Seq<V>, x: V, i: int) -> bool { 0 <= i < a.len() && ok(a[i], x) && forall|j: int| 0 <= j < a.len() && j != i ==> !ok(#[trigger] a[j], x) }
pub proof fn lemma_one_sole(a: Seq<V>, x: V, i: int) requires sole(a, x, i) ensures just_one(a, x) { reveal(sole); reveal(just_one); assert(ok(a[i], x)); }
pub proof fn lemma_sole_one(a: Seq<V>, x: V) -> (i: int) requires just_one(a, x) ensures sole(a, x, i) {
  reveal(sole); reveal(just_one);
  choose|i: int| 0 <= i < a.len() && ok(#[trigger] a[i], x) && forall|j: int| 0 <= j < a.len() && j != i ==> !ok(#[trigger] a[j], x)
}
pub proof fn lemma_sole_push(a: Seq<V>, s: V, x: V, i: int) requires sole(a, x, i), !ok(s, x) ensures sole(a.push(s), x, i)
{ reveal(sole); let b = a.push(s); assert forall|j: int| 0 <= j < b.len() && j != i implies !ok(#[trigger] b[j], x) by { if j < a.len() { assert(b[j] == a[j]); } } }
pub proof fn lemma_sole_last(a: Seq<V>, s: V, x: V) requires ok(s, x), !some_ok(a, x) ensures sole(a.push(s), x, a.len() as int)
{ reveal(sole); reveal(some_ok); let b = a.push(s); assert forall|j: int| 0 <= j < b.len() && j != a.len() implies !ok(#[trigger] b[j], x) by { assert(b[j] == a[j]); } }
pub proof fn lemma_sole_back(a: Seq<V>, s: V, x: V, i: int) requires sole(a.push(s), x, i) ensures (sole(a, x, i) && !ok(s, x)) || (ok(s, x) && !some_ok(a, x)) {
  reveal(sole); reveal(some_ok);
  let b = a.push(s); let n = a.len() as int;
  assert(b[n] == s);
  if i < n { assert(a[i] == b[i]); assert(!ok(b[n], x)); assert forall|j: int| 0 <= j < n && j != i implies !ok(#[trigger] a[j], x) by { assert(b[j] == a[j]); } }
  else { assert forall|j: int| 0 <= j < n implies !ok(#[trigger] a[j], x) by { assert(b[j] == a[j]); } }
}
pub broadcast proof fn lemma_one_push(a: Seq<V>, s: V, x: V) ensures #[trigger] just_one(a.push(s), x) == ((just_one(a, x) && !ok(s, x)) || (ok(s, x) && !some_ok(a, x))) {
  let b = a.push(s);
  if just_one(a, x) && !ok(s, x) { let i = lemma_sole_one(a, x); lemma_sole_push(a, s, x, i); lemma_one_sole(b, x, i); }
  if ok(s, x) && !some_ok(a, x) { lemma_sole_last(a, s, x); lemma_one_sole(b, x, a.len() as int); }
  if just_one(b, x) { let i = lemma_sole_one(b, x); lemma_sole_back(a, s, x, i); if sole(a, x, i) { lemma_one_sole(a, x, i); } }
}
pub broadcast proof fn lemma_oneof(a: Seq<V>, x: V) ensures #[trigger] ok(V::Obj(SMap::<Str, V>::empty().insert("oneOf"@, V::Arr(a))), x) == just_one(a, x) {
  reveal(just_one); lemma_kwid(); lemma_dnames();
  let m = SMap::<Str, V>::empty().insert("oneOf"@, V::Arr(a)); assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } } lemma_ok(m, x);
}
pub broadcast proof fn lemma_anyof(a: Seq<V>, x: V) ensures #[trigger] ok(V::Obj(SMap::<Str, V>::empty().insert("anyOf"@, V::Arr(a))), x) == some_ok(a, x) {
  reveal(some_ok); lemma_kwid(); lemma_dnames();
  let m = SMap::<Str, V>::empty().insert("anyOf"@, V::Arr(a)); assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } } lemma_ok(m, x);
}
// ---- tuples
#[verifier::opaque]
pub open spec fn heads_ok(a: Seq<V>, x: V) -> bool { forall|i: int| 0 <= i < x->Arr_0.len() && i < a.len() ==> ok(a[i], #[trigger] x->Arr_0[i]) }
pub broadcast proof fn lemma_heads0(x: V) ensures #[trigger] heads_ok(Seq::<V>::empty(), x) { reveal(heads_ok); }
pub broadcast proof fn lemma_heads_push(a: Seq<V>, s: V, x: V) ensures #[trigger] heads_ok(a.push(s), x) == (heads_ok(a, x) && (a.len() < x->Arr_0.len() ==> ok(s, x->Arr_0[a.len() as int]))) {
  reveal(heads_ok);
  let b = a.push(s); let n = a.len() as int;
  assert(b[n] == s);
  if heads_ok(b, x) { assert forall|i: int| 0 <= i < x->Arr_0.len() && i < a.len() implies ok(a[i], #[trigger] x->Arr_0[i]) by { assert(b[i] == a[i]); } }
  if heads_ok(a, x) && (n < x->Arr_0.len() ==> ok(s, x->Arr_0[n])) { assert forall|i: int| 0 <= i < x->Arr_0.len() && i < b.len() implies ok(b[i], #[trigger] x->Arr_0[i]) by { if i < n { assert(b[i] == a[i]); } } }
}
pub broadcast proof fn lemma_tuple(a: Seq<V>, n: int, x: V)
  ensures #[trigger] ok(V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("array"@)).insert("prefixItems"@, V::Arr(a)).insert("minItems"@, V::Num(n)).insert("maxItems"@, V::Num(n))), x) == (x is Arr && x->Arr_0.len() == n && heads_ok(a, x))
{
  reveal(heads_ok); lemma_kwid(); lemma_dnames();
  let m = SMap::<Str, V>::empty().insert("type"@, V::Str("array"@)).insert("prefixItems"@, V::Arr(a)).insert("minItems"@, V::Num(n)).insert("maxItems"@, V::Num(n));
  assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } } lemma_ok(m, x);
  assert(arr_at(m, "prefixItems"@) == a);
}
pub broadcast proof fn lemma_at_most(n: int, x: V)
  ensures #[trigger] ok(V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("array"@)).insert("maxItems"@, V::Num(n))), x) == (x is Arr && x->Arr_0.len() <= n)
{
  lemma_kwid(); lemma_dnames();
  let m = SMap::<Str, V>::empty().insert("type"@, V::Str("array"@)).insert("maxItems"@, V::Num(n));
  assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } } lemma_ok(m, x);
}
// ---- annotations
pub broadcast proof fn lemma_note(m: VM, k: Str, a: V, x: V) requires note_kw(k) ensures #[trigger] ok(V::Obj(m.insert(k, a)), x) == ok(V::Obj(m), x) { lemma_noted(m, k, a, x); }
pub broadcast proof fn lemma_force(v: V, x: V) requires is_schema(v) ensures #[trigger] ok(V::Obj(as_obj(v)), x) == ok(v, x) { lemma_forced(v, x); }
pub broadcast group group_derive { lemma_wfobj, lemma_wf0, lemma_wf0c, lemma_iop, lemma_in_push, lemma_in_front, lemma_in0, lemma_each0, lemma_each_ins,
  lemma_wf_props, lemma_wf_req, lemma_wf_close, lemma_tag, lemma_tag_unit, lemma_const, lemma_const_lit, lemma_null_lit, lemma_null, lemma_bool, lemma_strs0, lemma_strs_push, lemma_among0, lemma_among_push, lemma_strings, lemma_ext,
  lemma_some0, lemma_one0, lemma_some_push, lemma_one_push, lemma_oneof, lemma_anyof, lemma_heads0, lemma_heads_push, lemma_tuple, lemma_at_most, lemma_note, lemma_force }
