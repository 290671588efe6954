@@ ser.rs, continued: sequences, tuples, maps and structs (C20)
@verus
// #[derive(PartialEq)] on Schema, Value's equality being equality in the model; Schema == bool
impl PartialEq for Schema { #[verifier::external_body] fn eq(&self, o: &Schema) -> bool { unimplemented!() } }
impl PartialEq<bool> for Schema { #[verifier::external_body] fn eq(&self, o: &bool) -> bool { unimplemented!() } }
pub open spec fn osv(o: Option<Schema>) -> Option<V> { match o { Some(s) => Some(sv(s)), None => None } }
pub open spec fn orsv(o: Option<&Schema>) -> Option<V> { match o { Some(s) => Some(sv(*s)), None => None } }
pub axiom fn ax_eq_schema() ensures
  <Schema as vstd::std_specs::cmp::PartialEqSpec<Schema>>::obeys_eq_spec(), <Schema as vstd::std_specs::cmp::PartialEqSpec<bool>>::obeys_eq_spec(),
  <&Schema as vstd::std_specs::cmp::PartialEqSpec<&Schema>>::obeys_eq_spec(),
  <Option<Schema> as vstd::std_specs::cmp::PartialEqSpec<Option<Schema>>>::obeys_eq_spec(), <Option<&Schema> as vstd::std_specs::cmp::PartialEqSpec<Option<&Schema>>>::obeys_eq_spec(),
  forall|a: Schema, b: Schema| #[trigger] <Schema as vstd::std_specs::cmp::PartialEqSpec<Schema>>::eq_spec(&a, &b) == (sv(a) == sv(b)),
  forall|a: &Schema, b: &Schema| #[trigger] <&Schema as vstd::std_specs::cmp::PartialEqSpec<&Schema>>::eq_spec(&a, &b) == (sv(*a) == sv(*b)),
  forall|a: Schema, b: bool| #[trigger] <Schema as vstd::std_specs::cmp::PartialEqSpec<bool>>::eq_spec(&a, &b) == (sv(a) == V::Bool(b)),
  forall|a: Option<Schema>, b: Option<Schema>| #[trigger] <Option<Schema> as vstd::std_specs::cmp::PartialEqSpec<Option<Schema>>>::eq_spec(&a, &b) == (osv(a) == osv(b)),
  forall|a: Option<&Schema>, b: Option<&Schema>| #[trigger] <Option<&Schema> as vstd::std_specs::cmp::PartialEqSpec<Option<&Schema>>>::eq_spec(&a, &b) == (orsv(a) == orsv(b));
impl VVecContains<Schema> for Vec<Schema> { #[verifier::external_body] fn v_contains(&self, x: &Schema) -> (r: bool) ensures r == svs(self@).contains(sv(*x)) { self.contains(x) } }
pub open spec fn all_schemas(a: Seq<V>) -> bool { forall|i: int| 0 <= i < a.len() ==> is_schema(#[trigger] a[i]) }
/// some alternative accepts x
pub open spec fn some_ok(items: Seq<V>, x: V) -> bool { exists|i: int| 0 <= i < items.len() && ok(#[trigger] items[i], x) }
/// every element so far is accepted by some alternative so far
pub open spec fn seq_inv(items: Seq<V>, js: Seq<V>) -> bool { forall|j: int| 0 <= j < js.len() ==> some_ok(items, #[trigger] js[j]) }
pub proof fn lemma_seq_push(items: Seq<V>, now: Seq<V>, r: V, js: Seq<V>, j: V)
  requires seq_inv(items, js), ok(r, j), now.contains(r), (forall|i: int| 0 <= i < items.len() ==> now.contains(#[trigger] items[i])) || r == V::Bool(true)
  ensures seq_inv(now, js.push(j))
{
  let q = js.push(j);
  assert forall|k: int| 0 <= k < q.len() implies some_ok(now, #[trigger] q[k]) by {
    let w = choose|w: int| 0 <= w < now.len() && now[w] == r;
    if k < js.len() {
      assert(q[k] == js[k]); assert(some_ok(items, js[k]));
      let i = choose|i: int| 0 <= i < items.len() && ok(#[trigger] items[i], js[k]);
      if r == V::Bool(true) { assert(ok(now[w], q[k])); } else { let u = choose|u: int| 0 <= u < now.len() && now[u] == items[i]; assert(ok(now[u], q[k])); }
    } else { assert(ok(now[w], q[k])); }
  }
}
pub proof fn lemma_seq_steps(a: Seq<V>) ensures
  a.len() > 0 && a[0] == V::Bool(true) ==> forall|js: Seq<V>, j: V| seq_inv(a, js) ==> #[trigger] seq_inv(a, js.push(j)),
  forall|r: V, js: Seq<V>, j: V| a.contains(r) && #[trigger] ok(r, j) && seq_inv(a, js) ==> #[trigger] seq_inv(a, js.push(j)),
  forall|r: V, js: Seq<V>, j: V| ok(r, j) && seq_inv(a, js) ==> #[trigger] seq_inv(a.push(r), js.push(j)),
  forall|js: Seq<V>| seq_inv(Seq::<V>::empty().push(V::Bool(true)), js),
  forall|r: V| all_schemas(a) && is_schema(r) ==> #[trigger] all_schemas(a.push(r)),
  all_schemas(Seq::<V>::empty().push(V::Bool(true)))
{
  let t = Seq::<V>::empty().push(V::Bool(true));
  assert(t[0] == V::Bool(true));
  assert forall|js: Seq<V>| seq_inv(t, js) by { assert forall|k: int| 0 <= k < js.len() implies some_ok(t, #[trigger] js[k]) by { assert(ok(t[0], js[k])); } }
  if a.len() > 0 && a[0] == V::Bool(true) { assert forall|js: Seq<V>, j: V| seq_inv(a, js) implies #[trigger] seq_inv(a, js.push(j)) by { lemma_seq_push(a, a, V::Bool(true), js, j); } }
  assert forall|r: V, js: Seq<V>, j: V| a.contains(r) && #[trigger] ok(r, j) && seq_inv(a, js) implies #[trigger] seq_inv(a, js.push(j)) by { lemma_seq_push(a, a, r, js, j); }
  assert forall|r: V, js: Seq<V>, j: V| ok(r, j) && seq_inv(a, js) implies #[trigger] seq_inv(a.push(r), js.push(j)) by {
    let b = a.push(r); assert(b[a.len() as int] == r); assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(b[i] == a[i]); } lemma_seq_push(a, b, r, js, j); }
}
pub broadcast proof fn lemma_svs_push(a: Seq<Schema>, x: Schema) ensures #[trigger] svs(a.push(x)) == svs(a).push(sv(x)) { assert(svs(a.push(x)) =~= svs(a).push(sv(x))); }
pub broadcast proof fn lemma_svs_len(a: Seq<Schema>) ensures (#[trigger] svs(a)).len() == a.len(), a.len() == 0 ==> svs(a) == Seq::<V>::empty() { if a.len() == 0 { assert(svs(a) =~= Seq::<V>::empty()); } }
pub open spec fn v_items(items: V) -> V { V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("array"@)).insert("items"@, items)) }
pub open spec fn v_any(items: Seq<V>) -> V { V::Obj(SMap::<Str, V>::empty().insert("anyOf"@, V::Arr(items))) }
pub open spec fn seq_items(items: Seq<V>) -> V { if items.len() == 0 { V::Bool(true) } else if items.len() == 1 { items[0] } else { v_any(items) } }
pub proof fn lemma_seq_end(items: Seq<V>, js: Seq<V>) requires seq_inv(items, js) ensures ok(v_items(seq_items(items)), V::Arr(js)) {
  lemma_kwid(); let m = v_items(seq_items(items))->Obj_0; let x = V::Arr(js); lemma_ok(m, x);
  assert forall|i: int| 0 <= i < js.len() implies elem_ok(m, i, #[trigger] js[i]) by {
    assert(some_ok(items, js[i])); let u = choose|u: int| 0 <= u < items.len() && ok(#[trigger] items[u], js[i]);
    if items.len() > 1 { let n = v_any(items)->Obj_0; lemma_ok(n, js[i]); assert(arr_at(n, "anyOf"@) == items); assert(ok(arr_at(n, "anyOf"@)[u], js[i])); assert(items_ok(n, js[i])); assert(props_ok(n, js[i])); }
  }
}
@fn ser.rs impl Serializer for Serializer / serialize_seq
@kind method
@sig fn serialize_seq(self, _len: Option<usize>) -> (ret: Result<SerializeSeq<'a>, Error>)
@spec
  ensures ret matches Ok(s) && *s.generator == *old(self.generator) && *final(s.generator) == *final(self.generator) && s.items@ == Seq::<Schema>::empty()
@fn ser.rs impl SerializeSeq for SerializeSeq / serialize_element
@kind method
@sig fn serialize_element<T: Serialize + ?Sized>(&mut self, value: &T) -> (ret: Result<(), Error>)
@spec
  requires (*old(self)).generator.wf()
  ensures *final((*final(self)).generator) == *final((*old(self)).generator), grows(&*(*old(self)).generator, &*(*final(self)).generator),
    all_schemas(svs((*old(self)).items@)) ==> all_schemas(svs((*final(self)).items@)),
    ret.is_ok() ==> (value.json() matches Some(j) ==> forall|js: Seq<V>| seq_inv(svs((*old(self)).items@), js) ==> #[trigger] seq_inv(svs((*final(self)).items@), js.push(j)))
@start
broadcast use ax_ih, lemma_svs_push, lemma_svs_len;
proof { ax_eq_schema(); lemma_seq_steps(svs(self.items@)); assert(self.items@.len() > 0 ==> svs(self.items@)[0] == sv(self.items@[0])); }
@fn ser.rs impl SerializeSeq for SerializeSeq / end
@as end
@kind method
@sig fn end(self) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures *final(self.generator) == *old(self.generator), all_schemas(svs(self.items@)) ==> as_schema(ret), forall|js: Seq<V>| #[trigger] seq_inv(svs(self.items@), js) ==> inferred(ret, V::Arr(js))
@start
broadcast use lemma_svs_push, lemma_svs_len;
proof { let a = svs(self.items@); assert(a.len() > 0 ==> a[0] == sv(self.items@[0])); assert forall|js: Seq<V>| #[trigger] seq_inv(a, js) implies ok(v_items(seq_items(a)), V::Arr(js)) by { lemma_seq_end(a, js); } }
