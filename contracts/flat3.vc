@@ json_schema_for_flatten and json_schema_for_internally_tagged_enum_newtype_variant (C15)
@verus
pub struct SchemaSettings { pub inline_subschemas: bool }
#[verifier::external_body]
pub struct SchemaGenerator { _p: () }
pub trait JsonSchema {
  /// what the schema of the type may be
  spec fn js_ok(r: V) -> bool;
  /// ... and that of the type with its Option removed
  spec fn js_no(r: V) -> bool;
  spec fn js_inline() -> bool;
  spec fn js_opt() -> bool;
  fn json_schema(generator: &mut SchemaGenerator) -> (ret: Schema)
    ensures is_schema(sv(ret)), Self::js_ok(sv(ret));
  fn inline_schema() -> (ret: bool)
    ensures ret == Self::js_inline();
  fn _schemars_private_non_optional_json_schema(generator: &mut SchemaGenerator) -> (ret: Schema)
    ensures is_schema(sv(ret)), Self::js_no(sv(ret));
  fn _schemars_private_is_option() -> (ret: bool)
    ensures ret == Self::js_opt();
}
pub open spec fn v_ref(s: Str) -> V { V::Obj(SMap::<Str, V>::empty().insert("$ref"@, V::Str(s))) }
/// a subschema for T: T's schema, or a reference
pub open spec fn sub_of<T: ?Sized + JsonSchema>(r: V) -> bool { T::js_ok(r) || exists|s: Str| #[trigger] v_ref(s) == r }
impl SchemaGenerator {
  #[verifier::external_body]
  pub fn settings(&self) -> (ret: &SchemaSettings) { unimplemented!() }
  // C03: the schema inlined, or a reference
  #[verifier::external_body]
  pub fn subschema_for<T: ?Sized + JsonSchema>(&mut self) -> (ret: Schema)
    ensures is_schema(sv(ret)), sub_of::<T>(sv(ret))
  { unimplemented!() }
}
/// the schema works unchanged as that of a variant which carries a tag as well
pub open spec fn taggable(v: V) -> bool { !forbids(v) && (v matches V::Obj(m) ==> mget(m, "type"@) != Some(V::Str("null"@))) }
/// what the variant of an internally tagged enum gets, v being the schema of the newtype's content
pub open spec fn nv_inlined(r: V, v: V) -> bool { r == isubs(v, cf_au()) }
pub open spec fn nv<T: ?Sized + JsonSchema>(r: V) -> bool {
  exists|v: V| #[trigger] T::js_ok(v) && (nv_inlined(r, v) || (taggable(v) && !T::js_inline() && sub_of::<T>(r)))
}
/// nothing nested in what is inlined rejects the tag
pub proof fn theorem_inlined(v: V) ensures !ip_forbids(isubs(v, cf_au())) {
  if let V::Obj(m) = v {
    let r = isubs_m(m, cf_au());
    assert forall|k: Str| r.dom().contains(k) implies !(#[trigger] kw_fb(k, r[k])) by {
      lemma_kw_fb(k, r[k]);
      if kw_fb(k, r[k]) {
        let x = choose|x: V| #[trigger] ipos(k, r[k], x) && forbids(x);
        let w = m[k];
        if is_inplace1(k) { if is_schema(w) { theorem_open(w); } }
        else {
          let a = r[k]->Arr_0; let b = w->Arr_0;
          let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
          if is_schema(b[i]) { theorem_open(b[i]); }
        }
      }
    }
  }
}
@fn _private/mod.rs json_schema_for_flatten
@spec
  ensures is_schema(sv(ret)), !forbids(sv(ret)),
    exists|v: V| #[trigger] T::js_no(v) && (units_wf(v) ==> same(sv(ret), flat_schema(v, T::js_opt() && !required)))
@fn _private/mod.rs json_schema_for_internally_tagged_enum_newtype_variant
@call transform_immediate_subschemas=>transform_immediate_subschemas__AllowUnknownProperties
@spec
  ensures is_schema(sv(ret)), nv::<T>(sv(ret))
@start
proof {
  assert forall|v: V| forbids(v) == (v matches V::Obj(m) && (bad(m) || ip_fb(m))) by { if v is Obj { lemma_forbids(v->Obj_0); } }
  assert forall|m: VM| is_false(isubs_m(m, cf_au()), "additionalProperties"@) == #[trigger] is_false(m, "additionalProperties"@) by { }
}
