@@ schemars/src/_private/mod.rs: the object-building helpers (C14)
@verus
pub open spec fn vm0() -> VM { SMap::<Str, V>::empty() }
pub open spec fn or_obj(m: VM, k: Str) -> V { if m.dom().contains(k) { m[k] } else { V::Obj(vm0()) } }
pub open spec fn or_arr(m: VM, k: Str) -> V { if m.dom().contains(k) { m[k] } else { V::Arr(Seq::empty()) } }
/// the entry n of the object under k becomes x (k is created if absent; a k that is not an object is left alone)
pub open spec fn set_in(m: VM, k: Str, n: Str, x: V) -> VM {
  m.insert(k, match or_obj(m, k) { V::Obj(p) => V::Obj(p.insert(n, x)), w => w })
}
/// x is appended to the array under k
pub open spec fn push_in(m: VM, k: Str, x: V) -> VM { m.insert(k, match or_arr(m, k) { V::Arr(a) => V::Arr(a.push(x)), w => w }) }
pub open spec fn push_front_in(m: VM, k: Str, x: V) -> VM { m.insert(k, match or_arr(m, k) { V::Arr(a) => V::Arr(seq![x] + a), w => w }) }
pub open spec fn ty(t: Str) -> V { V::Str(t) }
pub open spec fn f_iop(m: VM, key: Str, opt: bool, sub: V) -> VM {
  let m1 = set_in(m, "properties"@, key, sub);
  if opt { m1 } else { push_in(m1, "required"@, V::Str(key)) }
}
/// {"type": "string", "const": v}
pub open spec fn v_const(v: Str) -> V { V::Obj(vm0().insert("type"@, ty("string"@)).insert("const"@, V::Str(v))) }
pub open spec fn v_ext_variant(v: Str, s: V) -> V {
  V::Obj(vm0().insert("type"@, ty("object"@)).insert("properties"@, V::Obj(vm0().insert(v, s))).insert("required"@, V::Arr(seq![V::Str(v)])).insert("additionalProperties"@, V::Bool(false)))
}
pub open spec fn f_tag(m: VM, tag: Str, variant: Str, deny: bool) -> VM {
  let m1 = set_in(m.insert("type"@, ty("object"@)), "properties"@, tag, v_const(variant));
  let m2 = push_front_in(m1, "required"@, V::Str(tag));
  if deny && mget(m, "type"@) == Some(ty("null"@)) && !m2.dom().contains("additionalProperties"@) { m2.insert("additionalProperties"@, V::Bool(false)) } else { m2 }
}
pub broadcast proof fn lemma_av_insert0(s: Seq<Value>, x: Value) ensures #[trigger] av(s.insert(0, x)) == seq![vv(x)] + av(s) { assert(av(s.insert(0, x)) =~= seq![vv(x)] + av(s)); }
@fn _private/mod.rs insert_object_property
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), V::Obj(f_iop(as_obj(sv(*old(schema))), key@, is_optional, sv(sub_schema))))
@fn _private/mod.rs new_unit_enum_variant
@spec
  ensures same(sv(ret), v_const(variant@)), is_schema(sv(ret))
@fn _private/mod.rs new_externally_tagged_enum_variant
@spec
  ensures same(sv(ret), v_ext_variant(variant@, sv(sub_schema))), is_schema(sv(ret))
@start
assert(Seq::<V>::empty().push(V::Str(variant@)) =~= seq![V::Str(variant@)]);
@fn _private/mod.rs apply_internal_enum_variant_tag
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), V::Obj(f_tag(as_obj(sv(*old(schema))), tag_name@, variant@, deny_unknown_fields)))
@start
broadcast use lemma_av_insert0;
@fn _private/mod.rs insert_metadata_property_if_nonempty
@subst impl Into<String>=impl VInto<String>
@spec
  requires is_schema(sv(*old(schema)))
  ensures exists|s: String| #[trigger] value.vi(s) && same(sv(*final(schema)), (if s@.len() == 0 { sv(*old(schema)) } else { V::Obj(as_obj(sv(*old(schema))).insert(key@, V::Str(s@))) }))
@fn _private/mod.rs insert_validation_property
@subst impl Into<Value>=impl VInto<Value>
@spec
  requires is_schema(sv(*old(schema)))
  ensures
    if has_type_spec(sv(*old(schema)), required_type@) || (required_type@ == "number"@ && has_type_spec(sv(*old(schema)), "integer"@)) {
      exists|x: Value| #[trigger] value.vi(x) && same(sv(*final(schema)), V::Obj(as_obj(sv(*old(schema))).insert(key@, vv(x))))
    } else { sv(*final(schema)) == sv(*old(schema)) }
