@@ what the keywords of derived schemas mean (JSON Schema validation), for C23
@verus
pub open spec fn beneath(c: V, v: V) -> bool { decreases_to!(v => c) }
pub proof fn lemma_beneath_k(v: V, k: Str) requires v is Obj, v->Obj_0.dom().contains(k) ensures beneath(v->Obj_0[k], v)
{ match v { V::Obj(m) => { assert(decreases_to!(v => m[k])); } _ => {} } }
pub proof fn lemma_beneath_ki(v: V, k: Str, i: int)
  requires v is Obj, v->Obj_0.dom().contains(k), v->Obj_0[k] is Arr, 0 <= i < v->Obj_0[k]->Arr_0.len() ensures beneath(v->Obj_0[k]->Arr_0[i], v)
{ match v { V::Obj(m) => { let w = m[k]; assert(decreases_to!(v => w)); match w { V::Arr(a) => { assert(decreases_to!(w => a)); assert(decreases_to!(a => a[i])); } _ => {} } } _ => {} } }
pub proof fn lemma_beneath_kk(v: V, k: Str, j: Str)
  requires v is Obj, v->Obj_0.dom().contains(k), v->Obj_0[k] is Obj, v->Obj_0[k]->Obj_0.dom().contains(j) ensures beneath(v->Obj_0[k]->Obj_0[j], v)
{ match v { V::Obj(m) => { let w = m[k]; assert(decreases_to!(v => w)); match w { V::Obj(n) => { assert(decreases_to!(w => n[j])); } _ => {} } } _ => {} } }
/// annotations: they restrict nothing
pub open spec fn note_kw(k: Str) -> bool {
  k == "title"@ || k == "description"@ || k == "default"@ || k == "deprecated"@ || k == "readOnly"@ || k == "writeOnly"@ || k == "examples"@ || k == "x-a"@
}
/// the keywords given a meaning here
pub open spec fn known_kw(k: Str) -> bool {
  note_kw(k) || k == "type"@ || k == "const"@ || k == "enum"@ || k == "anyOf"@ || k == "oneOf"@ || k == "prefixItems"@ || k == "minItems"@ || k == "maxItems"@ || k == "properties"@ || k == "required"@ || k == "additionalProperties"@ || k == "not"@
    || k == "items"@ || k == "uniqueItems"@ || k == "minimum"@ || k == "maximum"@
}
pub open spec fn known(m: VM) -> bool { forall|k: Str| #[trigger] m.dom().contains(k) ==> known_kw(k) }
pub open spec fn bare(m: VM) -> VM { m.restrict(m.dom().filter(|k: Str| !note_kw(k))) }
/// a schema with other keywords (a reference, a format, ..): whatever it means, its annotations do not change it
pub uninterp spec fn other(m: VM, x: V) -> bool;
pub open spec fn is_of(s: Str, x: V) -> bool {
  match x { V::Null => s == "null"@, V::Bool(_) => s == "boolean"@, V::Num(n) => s == "number"@ || s == "integer"@, V::Str(_) => s == "string"@, V::Arr(_) => s == "array"@, V::Obj(_) => s == "object"@ }
}
pub open spec fn k_type_ok(m: VM, x: V) -> bool {
  match mget(m, "type"@) { None => true, Some(V::Str(s)) => is_of(s, x), Some(V::Arr(a)) => exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Str && is_of(a[i]->Str_0, x), _ => false }
}
pub open spec fn k_const_ok(m: VM, x: V) -> bool { match mget(m, "const"@) { Some(c) => x == c, None => true } }
pub open spec fn k_enum_ok(m: VM, x: V) -> bool { match mget(m, "enum"@) { Some(V::Arr(a)) => a.contains(x), Some(_) => false, None => true } }
pub open spec fn k_min_ok(m: VM, n: int) -> bool { match mget(m, "minItems"@) { Some(V::Num(b)) => b <= n, Some(_) => false, None => true } }
pub open spec fn k_max_ok(m: VM, n: int) -> bool { match mget(m, "maxItems"@) { Some(V::Num(b)) => n <= b, Some(_) => false, None => true } }
pub open spec fn k_size_ok(m: VM, x: V) -> bool { x matches V::Arr(a) ==> k_min_ok(m, a.len() as int) && k_max_ok(m, a.len() as int) }
pub open spec fn k_required_ok(m: VM, x: V) -> bool {
  x matches V::Obj(o) ==> match mget(m, "required"@) { Some(V::Arr(a)) => forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Str && o.dom().contains(a[i]->Str_0), Some(_) => false, None => true }
}
pub open spec fn k_low_ok(m: VM, x: V) -> bool { x matches V::Num(n) ==> match mget(m, "minimum"@) { Some(V::Num(b)) => b <= n, Some(_) => false, None => true } }
pub open spec fn k_high_ok(m: VM, x: V) -> bool { x matches V::Num(n) ==> match mget(m, "maximum"@) { Some(V::Num(b)) => n <= b, Some(_) => false, None => true } }
pub open spec fn k_uniq_ok(m: VM, x: V) -> bool { x matches V::Arr(a) ==> match mget(m, "uniqueItems"@) { Some(V::Bool(b)) => b ==> a.no_duplicates(), Some(_) => false, None => true } }
pub open spec fn shallow_ok(m: VM, x: V) -> bool { k_low_ok(m, x) && k_high_ok(m, x) && k_uniq_ok(m, x) && k_type_ok(m, x) && k_const_ok(m, x) && k_enum_ok(m, x) && k_size_ok(m, x) && k_required_ok(m, x) }
pub open spec fn arr_at(m: VM, k: Str) -> Seq<V> { match mget(m, k) { Some(V::Arr(a)) => a, _ => Seq::empty() } }
pub open spec fn obj_at(m: VM, k: Str) -> VM { match mget(m, k) { Some(V::Obj(o)) => o, _ => SMap::empty() } }
/// the schema v accepts the value x
#[verifier::opaque]
pub open spec fn ok(v: V, x: V) -> bool decreases v {
  match v {
    V::Bool(b) => b,
    V::Obj(m) => if !known(m) { other(bare(m), x) } else { shallow_ok(m, x)
      && (m.dom().contains("not"@) ==> beneath(m["not"@], v) && !ok(m["not"@], x))
      && (m.dom().contains("anyOf"@) ==> exists|i: int| 0 <= i < arr_at(m, "anyOf"@).len() && beneath(arr_at(m, "anyOf"@)[i], v) && ok(#[trigger] arr_at(m, "anyOf"@)[i], x))
      && (m.dom().contains("oneOf"@) ==> exists|i: int| 0 <= i < arr_at(m, "oneOf"@).len() && beneath(arr_at(m, "oneOf"@)[i], v) && ok(#[trigger] arr_at(m, "oneOf"@)[i], x)
            && forall|j: int| 0 <= j < arr_at(m, "oneOf"@).len() && j != i ==> beneath(arr_at(m, "oneOf"@)[j], v) && !ok(#[trigger] arr_at(m, "oneOf"@)[j], x))
      && (x matches V::Arr(a) ==> forall|i: int| arr_at(m, "prefixItems"@).len() <= i < a.len() && m.dom().contains("items"@) ==> beneath(m["items"@], v) && ok(m["items"@], #[trigger] a[i]))
      && (x matches V::Arr(a) ==> forall|i: int| 0 <= i < a.len() && i < arr_at(m, "prefixItems"@).len() ==> beneath(arr_at(m, "prefixItems"@)[i], v) && ok(arr_at(m, "prefixItems"@)[i], #[trigger] a[i]))
      && (x matches V::Obj(o) ==> forall|k: Str| #[trigger] o.dom().contains(k) ==>
            if obj_at(m, "properties"@).dom().contains(k) { beneath(obj_at(m, "properties"@)[k], v) && ok(obj_at(m, "properties"@)[k], o[k]) }
            else { m.dom().contains("additionalProperties"@) ==> beneath(m["additionalProperties"@], v) && ok(m["additionalProperties"@], o[k]) }) },
    _ => false,
  }
}
// the same, part by part
pub open spec fn not_ok(m: VM, x: V) -> bool { m.dom().contains("not"@) ==> !ok(m["not"@], x) }
pub open spec fn any_of(a: Seq<V>, x: V) -> bool { exists|i: int| 0 <= i < a.len() && ok(#[trigger] a[i], x) }
pub open spec fn one_of(a: Seq<V>, x: V) -> bool { exists|i: int| 0 <= i < a.len() && ok(#[trigger] a[i], x) && forall|j: int| 0 <= j < a.len() && j != i ==> !ok(#[trigger] a[j], x) }
pub open spec fn any_ok(m: VM, x: V) -> bool { m.dom().contains("anyOf"@) ==> any_of(arr_at(m, "anyOf"@), x) }
pub open spec fn one_ok(m: VM, x: V) -> bool { m.dom().contains("oneOf"@) ==> one_of(arr_at(m, "oneOf"@), x) }
pub open spec fn items_ok(m: VM, x: V) -> bool { x matches V::Arr(a) ==> forall|i: int| 0 <= i < a.len() && i < arr_at(m, "prefixItems"@).len() ==> ok(arr_at(m, "prefixItems"@)[i], #[trigger] a[i]) }
pub open spec fn rest_ok(m: VM, x: V) -> bool { m.dom().contains("items"@) ==> (x matches V::Arr(a) ==> forall|i: int| arr_at(m, "prefixItems"@).len() <= i < a.len() ==> ok(m["items"@], #[trigger] a[i])) }
pub open spec fn prop_ok(m: VM, k: Str, x: V) -> bool { if obj_at(m, "properties"@).dom().contains(k) { ok(obj_at(m, "properties"@)[k], x) } else { m.dom().contains("additionalProperties"@) ==> ok(m["additionalProperties"@], x) } }
pub open spec fn props_ok(m: VM, x: V) -> bool { x matches V::Obj(o) ==> forall|k: Str| #[trigger] o.dom().contains(k) ==> prop_ok(m, k, o[k]) }
pub proof fn lemma_ok(m: VM, x: V) requires known(m) ensures ok(V::Obj(m), x) <==> shallow_ok(m, x) && not_ok(m, x) && any_ok(m, x) && one_ok(m, x) && items_ok(m, x) && rest_ok(m, x) && props_ok(m, x) {
  reveal(ok);
  let v = V::Obj(m);
  assert forall|i: int| 0 <= i < arr_at(m, "anyOf"@).len() implies beneath(#[trigger] arr_at(m, "anyOf"@)[i], v) by { lemma_beneath_ki(v, "anyOf"@, i); }
  assert forall|i: int| 0 <= i < arr_at(m, "oneOf"@).len() implies beneath(#[trigger] arr_at(m, "oneOf"@)[i], v) by { lemma_beneath_ki(v, "oneOf"@, i); }
  assert forall|i: int| 0 <= i < arr_at(m, "prefixItems"@).len() implies beneath(#[trigger] arr_at(m, "prefixItems"@)[i], v) by { lemma_beneath_ki(v, "prefixItems"@, i); }
  assert forall|k: Str| #[trigger] obj_at(m, "properties"@).dom().contains(k) implies beneath(obj_at(m, "properties"@)[k], v) by { lemma_beneath_kk(v, "properties"@, k); }
  if m.dom().contains("not"@) { lemma_beneath_k(v, "not"@); }
  if m.dom().contains("items"@) { lemma_beneath_k(v, "items"@); }
  if m.dom().contains("additionalProperties"@) { lemma_beneath_k(v, "additionalProperties"@); }
  match x { V::Obj(o) => { assert forall|k: Str| #[trigger] o.dom().contains(k) && ok(v, x) implies prop_ok(m, k, o[k]) by { } }, _ => {} }
}
pub open spec fn obj0() -> V { V::Obj(SMap::<Str, V>::empty()) }
/// forcing a schema to an object changes nothing
pub proof fn lemma_forced(v: V, x: V) requires is_schema(v) ensures ok(V::Obj(as_obj(v)), x) == ok(v, x) {
  lemma_kwid(); reveal(ok);
  match v { V::Bool(b) => {
    let e = SMap::<Str, V>::empty(); lemma_ok(e, x); assert(ok(V::Obj(e), x));
    if !b { let m = as_obj(v); assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } assert(m["not"@] == V::Obj(e)); lemma_ok(m, x); }
  } _ => {} }
}
pub proof fn lemma_note_other(k: Str) requires note_kw(k)
  ensures k != "type"@, k != "const"@, k != "enum"@, k != "anyOf"@, k != "oneOf"@, k != "prefixItems"@, k != "minItems"@, k != "maxItems"@, k != "properties"@, k != "required"@, k != "additionalProperties"@, k != "not"@, k != "items"@, k != "uniqueItems"@, k != "minimum"@, k != "maximum"@
{ lemma_dnames(); }
/// an annotation changes nothing
pub proof fn lemma_noted(m: VM, k: Str, a: V, x: V) requires note_kw(k) ensures ok(V::Obj(m.insert(k, a)), x) == ok(V::Obj(m), x) {
  lemma_note_other(k); reveal(ok);
  let n = m.insert(k, a);
  if known(m) {
    assert(known(n)); lemma_ok(m, x); lemma_ok(n, x);
    assert(shallow_ok(n, x) == shallow_ok(m, x));
    match x { V::Obj(o) => { assert forall|j: Str| prop_ok(n, j, o[j]) == #[trigger] prop_ok(m, j, o[j]) by { }
      if props_ok(n, x) { assert forall|j: Str| #[trigger] o.dom().contains(j) implies prop_ok(m, j, o[j]) by { assert(prop_ok(n, j, o[j])); } }
      if props_ok(m, x) { assert forall|j: Str| #[trigger] o.dom().contains(j) implies prop_ok(n, j, o[j]) by { assert(prop_ok(m, j, o[j])); } } }, _ => {} }
    assert(props_ok(n, x) == props_ok(m, x));
  } else {
    let j = choose|j: Str| m.dom().contains(j) && !known_kw(j);
    assert(n.dom().contains(j));
    assert(bare(n) =~= bare(m));
  }
}
