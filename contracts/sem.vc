@@ what the keywords of inferred schemas mean (JSON Schema validation), for C20
@verus
pub open spec fn beneath(c: V, v: V) -> bool { decreases_to!(v => c) }
pub proof fn lemma_beneath_k(v: V, k: Str) requires v is Obj, v->Obj_0.dom().contains(k) ensures beneath(v->Obj_0[k], v)
{ match v { V::Obj(m) => { assert(decreases_to!(v => m[k])); } _ => {} } }
pub proof fn lemma_beneath_ki(v: V, k: Str, i: int)
  requires v is Obj, v->Obj_0.dom().contains(k), v->Obj_0[k] is Arr, 0 <= i < v->Obj_0[k]->Arr_0.len() ensures beneath(v->Obj_0[k]->Arr_0[i], v)
{ match v { V::Obj(m) => { let w = m[k]; assert(decreases_to!(v => w)); match w { V::Arr(a) => { assert(decreases_to!(w => a)); assert(decreases_to!(a => a[i])); } _ => {} } } _ => {} } }
pub proof fn lemma_beneath_kk(v: V, k: Str, j: Str)
  requires v is Obj, v->Obj_0.dom().contains(k), v->Obj_0[k] is Obj, v->Obj_0[k]->Obj_0.dom().contains(j) ensures beneath(v->Obj_0[k]->Obj_0[j], v)
{ match v { V::Obj(m) => { let w = m[k]; assert(decreases_to!(v => w)); match w { V::Obj(n) => { assert(decreases_to!(w => n[j])); } _ => {} } } _ => {} } }
/// the keywords given a meaning here, and annotations, which have none; a schema with any other keyword accepts nothing here
pub open spec fn known_kw(k: Str) -> bool {
  k == "type"@ || k == "const"@ || k == "enum"@ || k == "anyOf"@ || k == "items"@ || k == "prefixItems"@ || k == "minItems"@ || k == "maxItems"@ || k == "properties"@ || k == "additionalProperties"@
  || k == "minLength"@ || k == "maxLength"@ || k == "minimum"@ || k == "maximum"@ || k == "title"@ || k == "format"@ || k == "examples"@ || k == "description"@ || k == "$schema"@ || k == "$defs"@ || k == "definitions"@
}
pub uninterp spec fn is_int(n: int) -> bool;
pub uninterp spec fn num_le(a: int, b: int) -> bool;
pub open spec fn k_of_type(t: V, x: V) -> bool {
  match t { V::Str(s) => match x {
    V::Null => s == "null"@, V::Bool(_) => s == "boolean"@, V::Num(n) => s == "number"@ || (s == "integer"@ && is_int(n)), V::Str(_) => s == "string"@, V::Arr(_) => s == "array"@, V::Obj(_) => s == "object"@ },
    _ => false }
}
pub open spec fn k_any_type(a: Seq<V>, x: V) -> bool { exists|i: int| 0 <= i < a.len() && k_of_type(#[trigger] a[i], x) }
pub open spec fn k_type_ok(m: VM, x: V) -> bool { match mget(m, "type"@) { Some(V::Arr(a)) => k_any_type(a, x), Some(t) => k_of_type(t, x), None => true } }
pub open spec fn k_const_ok(m: VM, x: V) -> bool { match mget(m, "const"@) { Some(c) => x == c, None => true } }
pub open spec fn k_enum_ok(m: VM, x: V) -> bool { match mget(m, "enum"@) { Some(V::Arr(a)) => a.contains(x), Some(_) => false, None => true } }
pub open spec fn bound_ok(m: VM, k: Str, upper: bool, n: int) -> bool { match mget(m, k) { Some(V::Num(b)) => if upper { n <= b } else { b <= n }, Some(_) => false, None => true } }
pub open spec fn num_ok(m: VM, n: int) -> bool {
  (match mget(m, "minimum"@) { Some(V::Num(b)) => num_le(b, n), Some(_) => false, None => true }) && (match mget(m, "maximum"@) { Some(V::Num(b)) => num_le(n, b), Some(_) => false, None => true })
}
pub open spec fn sizes_ok(m: VM, x: V) -> bool {
  match x {
    V::Arr(a) => bound_ok(m, "minItems"@, false, a.len() as int) && bound_ok(m, "maxItems"@, true, a.len() as int),
    V::Str(s) => bound_ok(m, "minLength"@, false, s.len() as int) && bound_ok(m, "maxLength"@, true, s.len() as int),
    V::Num(n) => num_ok(m, n),
    _ => true,
  }
}
pub open spec fn arr_at(m: VM, k: Str) -> Seq<V> { match mget(m, k) { Some(V::Arr(a)) => a, _ => Seq::empty() } }
pub open spec fn obj_at(m: VM, k: Str) -> VM { match mget(m, k) { Some(V::Obj(o)) => o, _ => SMap::empty() } }
pub open spec fn known(m: VM) -> bool { forall|k: Str| #[trigger] m.dom().contains(k) ==> known_kw(k) }
pub open spec fn shallow_ok(m: VM, x: V) -> bool { known(m) && k_type_ok(m, x) && k_const_ok(m, x) && k_enum_ok(m, x) && sizes_ok(m, x) }
/// the schema v accepts the value x
pub open spec fn ok(v: V, x: V) -> bool decreases v {
  match v {
    V::Bool(b) => b,
    V::Obj(m) => shallow_ok(m, x)
      && (m.dom().contains("anyOf"@) ==> exists|i: int| 0 <= i < arr_at(m, "anyOf"@).len() && beneath(arr_at(m, "anyOf"@)[i], v) && ok(#[trigger] arr_at(m, "anyOf"@)[i], x))
      && (x matches V::Arr(a) ==> forall|i: int| 0 <= i < a.len() ==>
            if i < arr_at(m, "prefixItems"@).len() { beneath(arr_at(m, "prefixItems"@)[i], v) && ok(arr_at(m, "prefixItems"@)[i], #[trigger] a[i]) }
            else { m.dom().contains("items"@) ==> beneath(m["items"@], v) && ok(m["items"@], #[trigger] a[i]) })
      && (x matches V::Obj(o) ==> forall|k: Str| #[trigger] o.dom().contains(k) ==>
            if obj_at(m, "properties"@).dom().contains(k) { beneath(obj_at(m, "properties"@)[k], v) && ok(obj_at(m, "properties"@)[k], o[k]) }
            else { m.dom().contains("additionalProperties"@) ==> beneath(m["additionalProperties"@], v) && ok(m["additionalProperties"@], o[k]) }),
    _ => false,
  }
}
// the same, part by part
pub open spec fn any_ok(m: VM, x: V) -> bool { m.dom().contains("anyOf"@) ==> exists|i: int| 0 <= i < arr_at(m, "anyOf"@).len() && ok(#[trigger] arr_at(m, "anyOf"@)[i], x) }
pub open spec fn elem_ok(m: VM, i: int, x: V) -> bool { if i < arr_at(m, "prefixItems"@).len() { ok(arr_at(m, "prefixItems"@)[i], x) } else { m.dom().contains("items"@) ==> ok(m["items"@], x) } }
pub open spec fn items_ok(m: VM, x: V) -> bool { x matches V::Arr(a) ==> forall|i: int| 0 <= i < a.len() ==> elem_ok(m, i, #[trigger] a[i]) }
pub open spec fn prop_ok(m: VM, k: Str, x: V) -> bool { if obj_at(m, "properties"@).dom().contains(k) { ok(obj_at(m, "properties"@)[k], x) } else { m.dom().contains("additionalProperties"@) ==> ok(m["additionalProperties"@], x) } }
pub open spec fn props_ok(m: VM, x: V) -> bool { x matches V::Obj(o) ==> forall|k: Str| #[trigger] o.dom().contains(k) ==> prop_ok(m, k, o[k]) }
pub proof fn lemma_ok(m: VM, x: V) ensures ok(V::Obj(m), x) <==> shallow_ok(m, x) && any_ok(m, x) && items_ok(m, x) && props_ok(m, x) {
  let v = V::Obj(m);
  assert forall|i: int| 0 <= i < arr_at(m, "anyOf"@).len() implies beneath(#[trigger] arr_at(m, "anyOf"@)[i], v) by { lemma_beneath_ki(v, "anyOf"@, i); }
  assert forall|i: int| 0 <= i < arr_at(m, "prefixItems"@).len() implies beneath(#[trigger] arr_at(m, "prefixItems"@)[i], v) by { lemma_beneath_ki(v, "prefixItems"@, i); }
  assert forall|k: Str| #[trigger] obj_at(m, "properties"@).dom().contains(k) implies beneath(obj_at(m, "properties"@)[k], v) by { lemma_beneath_kk(v, "properties"@, k); }
  if m.dom().contains("items"@) { lemma_beneath_k(v, "items"@); }
  if m.dom().contains("additionalProperties"@) { lemma_beneath_k(v, "additionalProperties"@); }
  match x { V::Arr(a) => { assert forall|i: int| 0 <= i < a.len() && ok(v, x) implies elem_ok(m, i, #[trigger] a[i]) by { } }, _ => {} }
  if items_ok(m, x) { match x { V::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies (if i < arr_at(m, "prefixItems"@).len() { beneath(arr_at(m, "prefixItems"@)[i], v) && ok(arr_at(m, "prefixItems"@)[i], #[trigger] a[i]) }
            else { m.dom().contains("items"@) ==> beneath(m["items"@], v) && ok(m["items"@], #[trigger] a[i]) }) by { assert(elem_ok(m, i, a[i])); } }, _ => {} } }
  match x { V::Obj(o) => { assert forall|k: Str| #[trigger] o.dom().contains(k) && ok(v, x) implies prop_ok(m, k, o[k]) by { } }, _ => {} }
}
