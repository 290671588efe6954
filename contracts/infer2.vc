@@ ser.rs, continued: what each Serializer method returns accepts the JSON of what it was given (C20)
@verus
/// the keywords that only describe
pub open spec fn annot(k: Str) -> bool { k == "title"@ || k == "format"@ || k == "examples"@ || k == "description"@ || k == "$schema"@ || k == "$defs"@ || k == "definitions"@ }
pub proof fn lemma_annot(m: VM, k: Str, w: V, x: V) requires annot(k) ensures ok(V::Obj(m), x) <==> ok(V::Obj(m.insert(k, w)), x) {
  let n = m.insert(k, w);
  lemma_ok(m, x); lemma_ok(n, x); lemma_kwid();
  assert(known(m) <==> known(n)) by {
    assert(known_kw(k));
    if known(n) { assert forall|j: Str| #[trigger] m.dom().contains(j) implies known_kw(j) by { assert(n.dom().contains(j)); } }
    if known(m) { assert forall|j: Str| #[trigger] n.dom().contains(j) implies known_kw(j) by { if j != k { assert(m.dom().contains(j)); } } }
  }
  lemma_same_kw(m, n, x);
}
/// the keywords a schema is judged by
pub open spec fn same_kw(m: VM, n: VM) -> bool {
  mget(m, "type"@) == mget(n, "type"@) && mget(m, "const"@) == mget(n, "const"@) && mget(m, "enum"@) == mget(n, "enum"@) && mget(m, "anyOf"@) == mget(n, "anyOf"@) && mget(m, "items"@) == mget(n, "items"@) && mget(m, "prefixItems"@) == mget(n, "prefixItems"@)
  && mget(m, "minItems"@) == mget(n, "minItems"@) && mget(m, "maxItems"@) == mget(n, "maxItems"@) && mget(m, "properties"@) == mget(n, "properties"@) && mget(m, "additionalProperties"@) == mget(n, "additionalProperties"@)
  && mget(m, "minLength"@) == mget(n, "minLength"@) && mget(m, "maxLength"@) == mget(n, "maxLength"@) && mget(m, "minimum"@) == mget(n, "minimum"@) && mget(m, "maximum"@) == mget(n, "maximum"@)
}
pub proof fn lemma_same_kw(m: VM, n: VM, x: V) requires same_kw(m, n), known(m) == known(n) ensures ok(V::Obj(m), x) <==> ok(V::Obj(n), x) {
  lemma_ok(m, x); lemma_ok(n, x);
  assert(any_ok(m, x) == any_ok(n, x)) by { assert(arr_at(m, "anyOf"@) == arr_at(n, "anyOf"@)); }
  assert forall|i: int, y: V| elem_ok(m, i, y) == #[trigger] elem_ok(n, i, y) by { }
  assert forall|k: Str, y: V| prop_ok(m, k, y) == #[trigger] prop_ok(n, k, y) by { }
  match x { V::Arr(a) => {
    if items_ok(m, x) { assert forall|i: int| 0 <= i < a.len() implies elem_ok(n, i, #[trigger] a[i]) by { assert(elem_ok(m, i, a[i])); } }
    if items_ok(n, x) { assert forall|i: int| 0 <= i < a.len() implies elem_ok(m, i, #[trigger] a[i]) by { assert(elem_ok(n, i, a[i])); } }
  }, V::Obj(o) => {
    if props_ok(m, x) { assert forall|k: Str| #[trigger] o.dom().contains(k) implies prop_ok(n, k, o[k]) by { assert(prop_ok(m, k, o[k])); } }
    if props_ok(n, x) { assert forall|k: Str| #[trigger] o.dom().contains(k) implies prop_ok(m, k, o[k]) by { assert(prop_ok(n, k, o[k])); } }
  }, _ => {} }
}

pub proof fn lemma_titled(v: V, w: V, x: V) requires is_schema(v), ok(v, x) ensures ok(V::Obj(as_obj(v).insert("title"@, w)), x) {
  match v { V::Bool(b) => { let e = SMap::<Str, V>::empty(); lemma_ok(e, x); lemma_annot(e, "title"@, w, x); }, V::Obj(m) => { lemma_annot(m, "title"@, w, x); }, _ => {} }
}
/// allowing null as well takes nothing away
pub proof fn theorem_anl_keeps(v: V, x: V) requires is_schema(v), ok(v, x) ensures ok(f_anl(v), x) {
  lemma_kwid();
  match v {
    V::Obj(m) => {
      lemma_ok(m, x);
      if nullable_any(m) { }
      else if cis(m) {
        let s = two(v, v_null());
        let w = SMap::<Str, V>::empty().insert("anyOf"@, V::Arr(s));
        lemma_ok(w, x);
        assert(s.len() == 2 && s[0] == v);
        assert(arr_at(w, "anyOf"@) == s);
        assert(any_ok(w, x)) by { assert(ok(arr_at(w, "anyOf"@)[0], x)); }
        assert(items_ok(w, x)); assert(props_ok(w, x));
      } else {
        let n = V::Str("null"@);
        let m1 = anl_type(m); let m2 = anl_enum(m1);
        lemma_ok(m2, x);
        assert(k_type_ok(m2, x)) by {
          assert(mget(m2, "type"@) == mget(m1, "type"@));
          match mget(m, "type"@) {
            Some(V::Arr(a)) => { let b = add_null(a, n); let i = choose|i: int| 0 <= i < a.len() && k_of_type(#[trigger] a[i], x); assert(b[i] == a[i]); assert(k_any_type(b, x)); },
            Some(V::Str(t)) => { if t != "null"@ { let b = two(V::Str(t), n); assert(b.len() == 2 && b[0] == V::Str(t)); assert(k_of_type(b[0], x)); assert(k_any_type(b, x)); } },
            _ => {},
          }
        }
        assert(k_const_ok(m2, x) && k_enum_ok(m2, x)) by {
          assert(mget(m1, "const"@) == mget(m, "const"@) && mget(m1, "enum"@) == mget(m, "enum"@));
          match mget(m, "const"@) {
            Some(c) => { if !(c is Null) { let b = two(c, V::Null); assert(b[0] == c); assert(b.contains(x)); } },
            None => match mget(m, "enum"@) { Some(V::Arr(a)) => { lemma_add_null(a, V::Null, x); }, _ => {} },
          }
        }
        assert(known(m2)) by { assert forall|k: Str| #[trigger] m2.dom().contains(k) implies known_kw(k) by { if m.dom().contains(k) { } else { assert(k == "type"@ || k == "enum"@); } } }
        assert(sizes_ok(m2, x));
        assert(arr_at(m2, "anyOf"@) == arr_at(m, "anyOf"@));
        assert(any_ok(m2, x));
        assert forall|i: int, y: V| elem_ok(m, i, y) == #[trigger] elem_ok(m2, i, y) by { }
        assert forall|k: Str, y: V| prop_ok(m, k, y) == #[trigger] prop_ok(m2, k, y) by { }
        match x { V::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies elem_ok(m2, i, #[trigger] a[i]) by { assert(elem_ok(m, i, a[i])); } },
          V::Obj(o) => { assert forall|k: Str| #[trigger] o.dom().contains(k) implies prop_ok(m2, k, o[k]) by { assert(prop_ok(m, k, o[k])); } }, _ => {} }
      }
    },
    _ => {},
  }
}
