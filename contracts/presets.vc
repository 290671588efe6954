@@ generate.rs: the presets (C21)
@fn transform.rs impl Default for AddNullable / default
@kind method
@spec
  ensures ret.remove_null_type
@verus
/// boxing a built-in transform as `dyn GenTransform` runs that transform
pub trait VBox: Sized { spec fn bf(&self) -> spec_fn(V) -> V; fn v_box(self) -> (r: VTransform) ensures forall|v: V, w: V| is_schema(v) && #[trigger] r.rel(v, w) ==> w == (self.bf())(v); }
pub fn v_box<T: VBox>(x: T) -> (r: VTransform) ensures forall|v: V, w: V| is_schema(v) && #[trigger] r.rel(v, w) ==> w == (x.bf())(v) { x.v_box() }
@for $X <- ReplaceBoolSchemas ;; RemoveRefSiblings ;; SetSingleExample ;; ReplaceConstValue ;; ReplacePrefixItems ;; AddNullable ;; ReplaceUnevaluatedProperties
impl VBox for $X { open spec fn bf(&self) -> spec_fn(V) -> V { self.f() } #[verifier::external_body] fn v_box(self) -> (r: VTransform) { unimplemented!() } }
@endfor
@verus
impl VInto<CowStr> for &'static str { open spec fn vi(self, r: CowStr) -> bool { cowv(r) == self@ } fn v_into(self) -> (r: CowStr) { Cow::Borrowed(self) } }
pub open spec fn c_wf() -> Cl { Cl { up: false, rs: false, pi: false, bl: false, nl: false, ex: false, cn: false, pw: true, tw: true } }
pub open spec fn c_2019() -> Cl { Cl { pi: true, pw: false, tw: false, ..c_wf() } }
pub open spec fn c_07() -> Cl { Cl { up: true, rs: true, ..c_2019() } }
pub open spec fn c_oas() -> Cl { Cl { bl: true, nl: true, ex: true, cn: true, ..c_07() } }
pub open spec fn want(d: Cl, v: V) -> bool { clean(d, v) }
pub broadcast proof fn lemma_want(d: Cl, c: Cl, v: V)
  requires clean(c, v), le(d, c)
  ensures #![trigger clean(c, v), want(d, v)] want(d, v)
{ lemma_le(d, c, v); }
pub broadcast group group_clean { lemma_c_f_rup, lemma_c_f_rrs, lemma_c_f_sse, lemma_c_f_rcv, lemma_c_f_rpi, lemma_c_rbs, lemma_c_an, lemma_want }
/// running these transforms on any (well-formed) schema leaves nothing the class rules out
pub open spec fn turns(d: Cl, q: Seq<VTransform>) -> bool { forall|v: V, w: V| is_schema(v) && clean(c_wf(), v) && #[trigger] run(q, q.len() as int, v, w) ==> clean(d, w) }
pub open spec fn step_at(q: Seq<VTransform>, ss: Seq<V>, k: int) -> bool { k < q.len() ==> q[k].rel(ss[k], ss[k + 1]) }
pub proof fn lemma_unroll(q: Seq<VTransform>, ss: Seq<V>)
  requires steps(q, q.len() as int, ss), q.len() <= 12
  ensures step_at(q, ss, 0), step_at(q, ss, 1), step_at(q, ss, 2), step_at(q, ss, 3), step_at(q, ss, 4), step_at(q, ss, 5), step_at(q, ss, 6), step_at(q, ss, 7), step_at(q, ss, 8), step_at(q, ss, 9), step_at(q, ss, 10), step_at(q, ss, 11)
{ assert forall|k: int| 0 <= k implies #[trigger] step_at(q, ss, k) by { if k < q.len() { assert(q[k].rel(ss[k], ss[k + 1])); } } }
@for $P|$S <- draft07|c_07 ;; draft2019_09|c_2019 ;; openapi3|c_oas
@fn generate.rs impl SchemaSettings / $P
@call Box::new=>v_box
@ret r
@spec
  ensures turns($S(), r.transforms.q())
@start
broadcast use group_clean;
@end
assert forall|v: V, w: V| is_schema(v) && clean(c_wf(), v) && #[trigger] run(__result.transforms.q(), __result.transforms.q().len() as int, v, w) implies clean($S(), w) by {
  let q = __result.transforms.q();
  let ss = choose|ss: Seq<V>| #[trigger] steps(q, q.len() as int, ss) && ss[0] == v && ss[q.len() as int] == w;
  lemma_unroll(q, ss);
  assert(want($S(), w));
}
@endfor
@fn generate.rs impl SchemaSettings / draft2020_12
@call Box::new=>v_box
@spec
  ensures ret.transforms.q().len() == 0
@fn generate.rs impl SchemaSettings / into_generator
@spec
  ensures ret.settings == self
@verus
// ---- the documents the presets produce
@for $P|$S <- draft07|c_07 ;; draft2019_09|c_2019 ;; openapi3|c_oas
pub fn preset_document__$P(schema: &mut Schema)
  requires is_schema(sv(*old(schema))), clean(c_wf(), sv(*old(schema)))
  ensures clean($S(), sv(*final(schema)))
{
  let mut g = SchemaSettings::$P().into_generator();
  g.apply_transforms(schema);
}
@endfor
@verus
/// the classes are not vacuous: a schema with a leftover keyword is not in them
pub proof fn theorem_dialects(m: VM)
  ensures
    m.dom().contains("prefixItems"@) ==> !clean(c_2019(), V::Obj(m)) && !clean(c_07(), V::Obj(m)) && !clean(c_oas(), V::Obj(m)),
    m.dom().contains("unevaluatedProperties"@) ==> !clean(c_07(), V::Obj(m)) && !clean(c_oas(), V::Obj(m)),
    m.dom().contains("$ref"@) && m.len() > 1 ==> !clean(c_07(), V::Obj(m)) && !clean(c_oas(), V::Obj(m)),
    m.dom().contains("const"@) || m.dom().contains("examples"@) || has_type_spec(V::Obj(m), "null"@) ==> !clean(c_oas(), V::Obj(m)),
    m.dom().contains("items"@) && m["items"@] is Bool ==> !clean(c_oas(), V::Obj(m)),
{
  lemma_kwid();
  lemma_clean(c_oas(), m);
  if m.dom().contains("items"@) && m["items"@] is Bool { assert(subpos("items"@, m["items"@], m["items"@])); }
}
