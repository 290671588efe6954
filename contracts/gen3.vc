@@ generate.rs: root schemas (C03, C04)
@verus
pub trait VEmpty: Sized { fn v_empty() -> Self; }
impl VEmpty for VUidSet { fn v_empty() -> (r: Self) ensures r.s() == ISet::<Uid>::empty() { VUidSet::new() } }
impl VEmpty for VUidMap { fn v_empty() -> (r: Self) ensures r.m() == SMap::<Uid, Str>::empty() { VUidMap::new() } }
impl VEmpty for VNameSet { fn v_empty() -> (r: Self) ensures r.s() == ISet::<Str>::empty() { VNameSet::new() } }
pub fn v_empty<T: VEmpty>() -> (r: T) ensures call_ensures(T::v_empty, (), r) { T::v_empty() }
impl Clone for VUidMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.m() == self.m() { unimplemented!() } }
impl Clone for VNameSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.s() == self.s() { unimplemented!() } }
impl Clone for SchemaSettings {
  // #[derive(Clone)]
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r.definitions_path.cv() == self.definitions_path.cv(), ocv(r.meta_schema) == ocv(self.meta_schema), r.transforms.q() == self.transforms.q(), r.inline_subschemas == self.inline_subschemas, r.contract == self.contract, r.untagged_enum_variant_titles == self.untagged_enum_variant_titles { unimplemented!() }
}
pub trait VAsDeref { fn v_as_deref(&self) -> Option<&str>; }
impl VAsDeref for Option<CowStr> { #[verifier::external_body] fn v_as_deref(&self) -> (r: Option<&str>) ensures r.is_some() == self.is_some(), r matches Some(x) ==> Some(x@) == ocv(*self) { self.as_deref() } }
impl VTake for Option<CowStr> { open spec fn tk(self, now: Self) -> bool { now is None } #[verifier::external_body] fn vtake(&mut self) -> (r: Self) { std::mem::take(self) } }
/// what running the first i transforms, in order, does
pub open spec fn run(ts: Seq<VTransform>, i: int, v: V, w: V) -> bool { exists|ss: Seq<V>| #[trigger] steps(ts, i, ss) && ss[0] == v && ss[i] == w }
pub open spec fn steps(ts: Seq<VTransform>, i: int, ss: Seq<V>) -> bool { i >= 0 && ss.len() == i + 1 && forall|k: int| 0 <= k < i ==> (#[trigger] ts[k]).rel(ss[k], ss[k + 1]) }
pub proof fn lemma_run0(ts: Seq<VTransform>, v: V) ensures run(ts, 0, v, v) { let ss = seq![v]; assert(steps(ts, 0, ss)); }
pub proof fn lemma_run(ts: Seq<VTransform>, i: int, v: V, x: V, w: V) requires i >= 0, run(ts, i, v, x), ts[i].rel(x, w) ensures run(ts, i + 1, v, w)
{ let s0 = choose|ss: Seq<V>| #[trigger] steps(ts, i, ss) && ss[0] == v && ss[i] == x; assert(steps(ts, i + 1, s0.push(w))); }
/// same except for the state of the transforms
pub open spec fn transformed(a: &SchemaGenerator, b: &SchemaGenerator) -> bool {
  a.settings.transforms.q().len() == b.settings.transforms.q().len() && a.settings.definitions_path == b.settings.definitions_path && a.settings.meta_schema == b.settings.meta_schema && a.settings.inline_subschemas == b.settings.inline_subschemas && a.settings.contract == b.settings.contract
  && a.definitions == b.definitions && a.pending_schema_ids == b.pending_schema_ids && a.schema_id_to_name == b.schema_id_to_name && a.used_schema_names == b.used_schema_names && a.root_schema_id_stack == b.root_schema_id_stack
}
@fn generate.rs impl SchemaGenerator / new
@call BTreeSet::new=>v_empty
@call BTreeMap::new=>v_empty
@spec
  ensures ret.settings == settings, ret.wf(), closed(ret.names(), ret.defs()), ret.names() == SMap::<Uid, Str>::empty(), ret.used() == ISet::<Str>::empty(), ret.defs() == SMap::<Str, V>::empty(), ret.pending() == ISet::<Uid>::empty(), ret.stack() == Seq::<Uid>::empty()
@fn generate.rs impl SchemaGenerator / transforms_mut
@call Box::as_mut=>v_as_mut
@subst impl Iterator<Item = &mut dyn GenTransform>=>Vec<&mut VTransform>
@nloops 1
@spec
  ensures derefm(ret@) == old(self).settings.transforms.q(), transformed(&*old(self), &*final(self))
@start
let ghost tq = self.settings.transforms.q();
@loop 0
  invariant it0.seq() == __q0, derefm(__q0) == tq, derefm(__v1@) =~= tq.take(it0.index())
@fn generate.rs impl SchemaGenerator / apply_transforms
@nloops 1
@spec
  requires is_schema(sv(*old(schema)))
  ensures is_schema(sv(*final(schema))), transformed(&*old(self), &*final(self)), run(old(self).settings.transforms.q(), old(self).settings.transforms.q().len() as int, sv(*old(schema)), sv(*final(schema)))
@start
let ghost g0 = *self;
let ghost s0 = sv(*schema);
proof { lemma_run0(g0.settings.transforms.q(), s0); }
@loop 0
  invariant it0.seq() == __q0, derefm(__q0) == g0.settings.transforms.q(), is_schema(sv(*schema)), run(g0.settings.transforms.q(), it0.index(), s0, sv(*schema))
@loopstart 0
proof { let i = it0.index() as int; let ts = g0.settings.transforms.q();
  assert(derefm(__q0)[i] == *__q0[i]);
  assert forall|x: V, w: V| #[trigger] run(ts, i, s0, x) && #[trigger] ts[i].rel(x, w) implies run(ts, i + 1, s0, w) by { lemma_run(ts, i, s0, x, w); }
}
@verus
/// what transforming a definition may do
pub open spec fn may_turn(v: V, w: V) -> bool { if is_schema(v) { is_schema(w) } else { w == v } }
@fn generate.rs impl SchemaGenerator / take_definitions
@nloops 1
@spec
  ensures final(self).defs() =~= SMap::<Str, V>::empty(), !apply_transforms ==> ret == old(self).definitions && final(self).settings == old(self).settings,
    mv(ret).dom() == old(self).defs().dom(), forall|k: Str| old(self).defs().dom().contains(k) ==> may_turn(old(self).defs()[k], #[trigger] mv(ret)[k]),
    transformed(&SchemaGenerator { definitions: final(self).definitions, ..*old(self) }, &*final(self))
@start
let ghost d0 = self.definitions;
let ghost g0 = *self;
@loop 0
  invariant it0.seq() == __q0, transformed(&SchemaGenerator { definitions: self.definitions, ..g0 }, &*self), mv(self.definitions) == SMap::<Str, V>::empty(),
    forall|j: int| 0 <= j < it0.index() ==> may_turn(mv(d0)[mkeys(d0)[j]], #[trigger] vv(*final(__q0[j])))
@verus
/// the document before the transforms: o is the type's schema forced to an object
pub open spec fn with_meta(o: VM, meta: Option<Str>) -> VM { match meta { Some(x) => o.insert("$schema"@, V::Str(x)), None => o } }
pub open spec fn with_defs(o: VM, path: Str, defs: VM) -> VM {
  let p = stripped(path);
  if defs.dom().len() > 0 && reach(o, p, true) { put_at(o, p, at(o, p).union_prefer_right(defs)) } else { o }
}
pub open spec fn rooted(t: VM, a: &SchemaGenerator, defs: VM) -> V { V::Obj(with_defs(with_meta(t, ocv(a.settings.meta_schema)), a.settings.definitions_path.cv(), defs)) }
/// the order in which the entries are set does not matter
pub broadcast proof fn lemma_meta_order(m: VM, y: V, k: Str, x: V)
  requires k != "$schema"@
  ensures #[trigger] m.insert("$schema"@, y).insert(k, x) == m.insert(k, x).insert("$schema"@, y)
{ assert(m.insert("$schema"@, y).insert(k, x) =~= m.insert(k, x).insert("$schema"@, y)); }
/// n transforms, one after the other, may make r of v
pub open spec fn run_n(n: int, v: V, r: V) -> bool { exists|ts: Seq<VTransform>| ts.len() == n && #[trigger] run(ts, n, v, r) }
/// r is a root document for T generated by a, with these definitions
pub open spec fn root_doc<T: ?Sized + JsonSchema>(a: &SchemaGenerator, defs: VM, r: V) -> bool {
  let n = a.settings.transforms.q().len() as int;
  exists|s: V| #[trigger] T::js_ok(s) && (if as_obj(s).dom().contains("title"@) { run_n(n, rooted(as_obj(s), a, defs), r) } else {
    exists|t: Str| #[trigger] T::js_name(t) && run_n(n, rooted(as_obj(s).insert("title"@, V::Str(t)), a, defs), r) })
}
pub broadcast proof fn lemma_uvs_push(q: Seq<SchemaUid>, x: SchemaUid) ensures #[trigger] uvs(q.push(x)) == uvs(q).push(uv(x)) { assert(uvs(q.push(x)) =~= uvs(q).push(uv(x))); }
pub broadcast proof fn lemma_uvs_pop(q: Seq<SchemaUid>, n: int) requires 0 <= n <= q.len() ensures #[trigger] uvs(q.subrange(0, n)) == uvs(q).take(n) { assert(uvs(q.subrange(0, n)) =~= uvs(q).take(n)); }
pub broadcast proof fn lemma_uvs_len(q: Seq<SchemaUid>) ensures #[trigger] uvs(q).len() == q.len() { }
pub broadcast proof fn lemma_push_pop(q: Seq<Uid>, x: Uid) ensures (#[trigger] q.push(x)).take(q.len() as int) == q { assert(q.push(x).take(q.len() as int) =~= q); }
pub broadcast group group_uvs { lemma_uvs_push, lemma_uvs_pop, lemma_uvs_len, lemma_push_pop }
@fn generate.rs impl SchemaGenerator / root_schema_for
@spec
  requires old(self).wf()
  ensures is_schema(sv(ret)), grows(&*old(self), &*final(self)), root_doc::<T>(&*old(self), final(self).defs(), sv(ret))
@start
broadcast use group_cat, group_uvs, lemma_meta_order;
@verus
/// as grows, except for the stack of roots
pub open spec fn grown(a: &SchemaGenerator, b: &SchemaGenerator) -> bool {
  &&& b.wf() && names_grow(a.names(), b.names()) && used_grow(a.used(), b.used()) && defs_grow(a.defs(), b.defs())
  &&& closed(a.names(), a.defs()) ==> closed(b.names(), b.defs())
}
@fn generate.rs impl SchemaGenerator / into_root_schema_for
@spec
  requires self.wf()
  ensures is_schema(sv(ret)), exists|g: SchemaGenerator| #[trigger] grown(&self, &g) && root_doc::<T>(&self, g.defs(), sv(ret))
@start
broadcast use group_cat, lemma_meta_order;
proof {
  assert forall|p: SchemaGenerator, g: SchemaGenerator| #[trigger] grows(&p, &g) && p.names() == self.names() && p.used() == self.used() && p.defs() == self.defs() implies grown(&self, &g) by { }
}
@fn generate.rs impl Clone for SchemaGenerator / clone
@call BTreeSet::new=>v_empty
@spec
  ensures ret.names() == self.names(), ret.used() == self.used(), ret.defs() == self.defs(), ret.pending() == ISet::<Uid>::empty(), ret.stack() == Seq::<Uid>::empty(),
    ret.settings.definitions_path.cv() == self.settings.definitions_path.cv(), ocv(ret.settings.meta_schema) == ocv(self.settings.meta_schema), ret.settings.inline_subschemas == self.settings.inline_subschemas, ret.settings.contract == self.settings.contract
@verus
/// schemas inferred from a value (ser.rs); what serialising into a schema gives is left open here
pub struct Serializer<'a> { pub generator: &'a mut SchemaGenerator, pub include_title: bool }
pub trait Serialize {
  spec fn ser_ok(&self, r: V) -> bool;
  spec fn json(&self) -> Option<V>;
  fn serialize(&self, s: Serializer) -> (r: Result<Schema, Error>)
    requires s.generator.wf()
    ensures grows(&*old(s.generator), &*final(s.generator)), r matches Ok(x) ==> is_schema(sv(x)) && self.ser_ok(sv(x));
}
#[verifier::external_body]
pub fn to_value<T: ?Sized + Serialize>(v: &T) -> (r: Result<Value, Error>) ensures r.is_ok() == v.json().is_some(), r matches Ok(x) ==> Some(vv(x)) == v.json() { unimplemented!() }
pub open spec fn exampled(o: VM, j: Option<V>) -> VM { match j { Some(x) => o.insert("examples"@, V::Arr(seq![x])), None => o } }
pub open spec fn value_doc<T: ?Sized + Serialize>(t: &T, a: &SchemaGenerator, defs: VM, r: V) -> bool {
  exists|s: V| #[trigger] t.ser_ok(s) && run_n(a.settings.transforms.q().len() as int, rooted(exampled(as_obj(s), t.json()), a, defs), r)
}
@fn generate.rs impl SchemaGenerator / root_schema_for_value
@spec
  requires old(self).wf()
  ensures grows(&*old(self), &*final(self)), ret matches Ok(s) ==> is_schema(sv(s)) && value_doc(value, &*old(self), final(self).defs(), sv(s))
@start
broadcast use lemma_meta_order;
@fn generate.rs impl SchemaGenerator / into_root_schema_for_value
@spec
  requires self.wf()
  ensures ret matches Ok(s) ==> is_schema(sv(s)) && exists|g: SchemaGenerator| #[trigger] grown(&self, &g) && value_doc(value, &self, g.defs(), sv(s))
@start
broadcast use group_cat, lemma_meta_order;
proof {
  assert forall|p: SchemaGenerator, g: SchemaGenerator| #[trigger] grows(&p, &g) && p.names() == self.names() && p.used() == self.used() && p.defs() == self.defs() implies grown(&self, &g) by { }
}
