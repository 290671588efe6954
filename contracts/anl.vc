@@ _private::allow_null and Option<T> (C12)
@verus
pub open spec fn v_null() -> V { V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("null"@))) }
pub open spec fn null_schema(v: V) -> bool { is_schema(v) && has_type_spec(v, "null"@) }
pub open spec fn any_null(a: Seq<V>) -> bool { exists|i: int| 0 <= i < a.len() && null_schema(#[trigger] a[i]) }
/// {"anyOf": [..]} with an alternative for null
pub open spec fn nullable_any(m: VM) -> bool { m.len() == 1 && (match mget(m, "anyOf"@) { Some(V::Arr(a)) => any_null(a), _ => false }) }
pub open spec fn add_null(a: Seq<V>, n: V) -> Seq<V> { if a.contains(n) { a } else { a.push(n) } }
pub open spec fn anl_type(m: VM) -> VM {
  match mget(m, "type"@) {
    Some(V::Arr(a)) => m.insert("type"@, V::Arr(add_null(a, V::Str("null"@)))),
    Some(V::Str(s)) => if s == "null"@ { m } else { m.insert("type"@, V::Arr(two(V::Str(s), V::Str("null"@)))) },
    _ => m,
  }
}
pub open spec fn anl_enum(m: VM) -> VM {
  match mget(m, "const"@) {
    Some(V::Null) => m,
    Some(c) => m.remove("const"@).insert("enum"@, V::Arr(two(c, V::Null))),
    None => match mget(m, "enum"@) { Some(V::Arr(a)) => m.insert("enum"@, V::Arr(add_null(a, V::Null))), _ => m },
  }
}
pub open spec fn f_anl(v: V) -> V {
  match v {
    V::Obj(m) => if nullable_any(m) { v } else if cis(m) { V::Obj(SMap::<Str, V>::empty().insert("anyOf"@, V::Arr(two(v, v_null())))) } else { V::Obj(anl_enum(anl_type(m))) },
    V::Bool(false) => v_null(),
    _ => v,
  }
}
// ---- what the keywords it edits mean (JSON Schema validation); every other keyword is left uninterpreted
pub uninterp spec fn other_type(t: Str, x: V) -> bool;
pub uninterp spec fn other_kws(m: VM, x: V) -> bool;
pub open spec fn of_type(t: V, x: V) -> bool { match t { V::Str(s) => if s == "null"@ { x is Null } else { other_type(s, x) && !(x is Null) }, _ => false } }
pub open spec fn any_type(a: Seq<V>, x: V) -> bool { exists|i: int| 0 <= i < a.len() && of_type(#[trigger] a[i], x) }
pub open spec fn type_ok(m: VM, x: V) -> bool {
  match mget(m, "type"@) { Some(V::Arr(a)) => any_type(a, x), Some(t) => of_type(t, x), None => true }
}
pub open spec fn const_ok(m: VM, x: V) -> bool { match mget(m, "const"@) { Some(c) => x == c, None => true } }
pub open spec fn enum_ok(m: VM, x: V) -> bool { match mget(m, "enum"@) { Some(V::Arr(a)) => a.contains(x), _ => true } }
pub open spec fn rest(m: VM) -> VM { m.remove("type"@).remove("const"@).remove("enum"@).remove("anyOf"@) }
/// no keyword, no constraint
pub open spec fn no_kw_no_constraint() -> bool { forall|x: V| #[trigger] other_kws(SMap::<Str, V>::empty(), x) }
pub open spec fn acc(v: V, x: V) -> bool decreases v {
  match v {
    V::Bool(b) => b,
    V::Obj(m) => type_ok(m, x) && const_ok(m, x) && enum_ok(m, x) && other_kws(rest(m), x)
      && (match mget(m, "anyOf"@) { Some(V::Arr(a)) => exists|i: int| 0 <= i < a.len() && decreases_to!(v => a[i]) && acc(#[trigger] a[i], x), _ => true }),
    _ => false,
  }
}
/// the schemas the claim is about: not both const and enum, no other keyword that rejects null outside an applicator,
/// and an alternative whose type includes null accepts null
pub open spec fn anl_dom(v: V) -> bool {
  match v {
    V::Obj(m) =>
      if nullable_any(m) { match m["anyOf"@] { V::Arr(a) => forall|i: int| 0 <= i < a.len() && null_schema(#[trigger] a[i]) ==> acc(a[i], V::Null), _ => true } }
      else if cis(m) { true }
      else { &&& !(m.dom().contains("const"@) && m.dom().contains("enum"@))
             &&& other_kws(rest(m), V::Null)
             &&& m.dom().contains("enum"@) ==> m["enum"@] is Arr
             &&& m.dom().contains("type"@) ==> m["type"@] is Str || m["type"@] is Arr },
    V::Bool(_) => true,
    _ => false,
  }
}
pub proof fn lemma_add_null(a: Seq<V>, n: V, x: V) ensures add_null(a, n).contains(x) <==> (a.contains(x) || x == n) {
  if !a.contains(n) {
    let b = a.push(n);
    assert(b[a.len() as int] == n);
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); } }
  }
}
pub proof fn lemma_type_ok(m: VM, m2: VM, x: V)
  requires mget(m2, "type"@) == mget(anl_type(m), "type"@), m.dom().contains("type"@) ==> m["type"@] is Str || m["type"@] is Arr
  ensures type_ok(m2, x) <==> (type_ok(m, x) || (x is Null))
{
  let n = V::Str("null"@);
  assert(of_type(n, x) == (x is Null));
  match mget(m, "type"@) {
    Some(V::Arr(a)) => {
      let b = add_null(a, n);
      lemma_add_null(a, n, n); assert(mget(m2, "type"@) == Some(V::Arr(b)));
      let i0 = choose|i: int| 0 <= i < b.len() && b[i] == n;
      assert(0 <= i0 < b.len() && b[i0] == n);
      if x is Null { assert(of_type(b[i0], x)); assert(type_ok(m2, x)); }
      assert(type_ok(m2, x) == any_type(b, x)); assert(type_ok(m, x) == any_type(a, x));
      if any_type(a, x) { let i = choose|i: int| 0 <= i < a.len() && of_type(#[trigger] a[i], x); assert(b[i] == a[i]); assert(of_type(b[i], x)); assert(0 <= i < b.len()); assert(type_ok(m2, x)); }
      if type_ok(m2, x) { let i = choose|i: int| 0 <= i < b.len() && of_type(#[trigger] b[i], x); if i < a.len() { assert(b[i] == a[i]); assert(type_ok(m, x)); } else { assert(b[i] == n); } }
    },
    Some(V::Str(s)) => { if s != "null"@ { let b = two(V::Str(s), n); assert(b.len() == 2 && b[0] == V::Str(s) && b[1] == n); assert(mget(m2, "type"@) == Some(V::Arr(b)));
      assert(type_ok(m2, x) == any_type(b, x));
      if of_type(b[0], x) { assert(type_ok(m2, x)); } if of_type(b[1], x) { assert(type_ok(m2, x)); } assert(of_type(b[0], x) == type_ok(m, x)); if type_ok(m2, x) { let i = choose|i: int| 0 <= i < b.len() && of_type(#[trigger] b[i], x); assert(i == 0 || i == 1); } } },
    _ => {},
  }
}
/// accepts null, and anything else exactly as before
pub proof fn theorem_accepts_null(v: V, x: V)
  requires anl_dom(v), no_kw_no_constraint()
  ensures acc(f_anl(v), x) <==> (x is Null || acc(v, x))
{
  lemma_kwid();
  let e = SMap::<Str, V>::empty();
  let vn = v_null();
  let nm = e.insert("type"@, V::Str("null"@));
  assert(rest(nm) =~= e);
  assert(acc(vn, x) == (x is Null)) by { assert(vn == V::Obj(nm)); assert(mget(nm, "type"@) == Some(V::Str("null"@))); }
  match v {
    V::Obj(m) => {
      if nullable_any(m) {
        if x is Null {
          match m["anyOf"@] { V::Arr(a) => {
            let i = choose|i: int| 0 <= i < a.len() && null_schema(#[trigger] a[i]);
            assert(m.remove("anyOf"@).len() == 0);
            assert(m.remove("anyOf"@) =~= e);
            assert forall|k: Str| m.dom().contains(k) implies k == "anyOf"@ by { if k != "anyOf"@ { assert(m.remove("anyOf"@).dom().contains(k)); } }
            assert(rest(m) =~= e);
            assert(decreases_to!(m["anyOf"@] => a)); assert(decreases_to!(a => a[i]));
            assert(decreases_to!(v => m["anyOf"@]));
            assert(acc(a[i], x));
          }, _ => {} }
        }
      } else if cis(m) {
        let s = two(v, vn);
        let w = e.insert("anyOf"@, V::Arr(s));
        let r = V::Obj(w);
        assert(f_anl(v) == r);
        assert(rest(w) =~= e);
        assert(s[0] == v && s[1] == vn && s.len() == 2);
        assert(w.dom().contains("anyOf"@)); let av0 = w["anyOf"@]; assert(av0 == V::Arr(s));
        assert(decreases_to!(r => r->Obj_0["anyOf"@])); assert(decreases_to!(av0 => av0->Arr_0)); assert(decreases_to!(s => s[0])); assert(decreases_to!(s => s[1]));
        assert(decreases_to!(r => s[0])); assert(decreases_to!(r => s[1]));
        assert(acc(r, x) <==> (acc(s[0], x) || acc(s[1], x)));
      } else {
        let m1 = anl_type(m);
        let m2 = anl_enum(m1);
        assert(rest(m2) =~= rest(m));
        assert(mget(m2, "type"@) == mget(m1, "type"@));
        assert(mget(m1, "const"@) == mget(m, "const"@) && mget(m1, "enum"@) == mget(m, "enum"@));
        assert(mget(m2, "anyOf"@) is None && mget(m, "anyOf"@) is None);
        lemma_type_ok(m, m2, x);
        assert((const_ok(m2, x) && enum_ok(m2, x)) <==> (x is Null || (const_ok(m, x) && enum_ok(m, x)))) by {
          match mget(m, "const"@) {
            Some(c) => { if !(c is Null) { let b = two(c, V::Null); assert(b.contains(x) <==> (x == c || x is Null)) by { assert(b[0] == c && b[1] is Null); } } },
            None => match mget(m, "enum"@) { Some(V::Arr(a)) => { lemma_add_null(a, V::Null, x); }, _ => {} },
          }
        }
        assert(acc(V::Obj(m2), x) <==> (type_ok(m2, x) && const_ok(m2, x) && enum_ok(m2, x) && other_kws(rest(m2), x)));
        assert(acc(v, x) <==> (type_ok(m, x) && const_ok(m, x) && enum_ok(m, x) && other_kws(rest(m), x)));
      }
    },
    _ => {},
  }
}
/// doing it twice is doing it once
pub proof fn theorem_idempotent(v: V) ensures f_anl(f_anl(v)) == f_anl(v) {
  lemma_kwid();
  let e = SMap::<Str, V>::empty();
  let nm = e.insert("type"@, V::Str("null"@));
  match v {
    V::Obj(m) => {
      if nullable_any(m) { }
      else if cis(m) {
        let s = two(v, v_null());
        let w = e.insert("anyOf"@, V::Arr(s));
        assert(s[1] == v_null());
        assert(null_schema(s[1]));
        assert(w.len() == 1);
        assert(nullable_any(w));
      } else {
        let m1 = anl_type(m); let m2 = anl_enum(m1);
        assert(!cis(m2)); assert(!nullable_any(m2));
        lemma_anl_type2(m); lemma_anl_enum2(m1);
        assert(mget(m2, "type"@) == mget(m1, "type"@));
        assert(anl_type(m2) =~= m2);
        assert(anl_enum(m2) =~= m2);
      }
    },
    V::Bool(false) => { assert(anl_type(nm) =~= nm); assert(anl_enum(nm) =~= nm); assert(!cis(nm)); assert(!nullable_any(nm)); },
    _ => {},
  }
}
pub proof fn lemma_anl_type2(m: VM) ensures anl_type(anl_type(m)) == anl_type(m) {
  match mget(m, "type"@) {
    Some(V::Arr(a)) => { lemma_add_null(a, V::Str("null"@), V::Str("null"@)); },
    Some(V::Str(s)) => { let b = two(V::Str(s), V::Str("null"@)); assert(b[1] == V::Str("null"@)); assert(b.contains(V::Str("null"@))); },
    _ => {},
  }
}
pub proof fn lemma_anl_enum2(m: VM) ensures anl_enum(anl_enum(m)) == anl_enum(m) {
  lemma_kwid();
  match mget(m, "const"@) {
    Some(V::Null) => {},
    Some(c) => { let b = two(c, V::Null); assert(b[1] == V::Null); assert(b.contains(V::Null)); },
    None => match mget(m, "enum"@) { Some(V::Arr(a)) => { lemma_add_null(a, V::Null, V::Null); }, _ => {} },
  }
}
@fn _private/mod.rs allow_null / is_null_schema
@as is_null_schema
@spec
  ensures ret == null_schema(vv(*value))
@fn _private/mod.rs allow_null
@nloops 1
@spec
  requires is_schema(sv(*old(schema))), ready(&*old(generator))
  ensures stepped(&*old(generator), &*final(generator)), same(sv(*final(schema)), f_anl(sv(*old(schema)))), is_schema(sv(*final(schema))),
    f_anl(sv(*final(schema))) == sv(*final(schema)),
    anl_dom(sv(*old(schema))) && no_kw_no_constraint() ==> forall|x: V| #[trigger] acc(sv(*final(schema)), x) <==> (x is Null || acc(sv(*old(schema)), x))
@loop 0
  invariant it0.seq() == __q0, __r0 == (exists|i: int| 0 <= i < it0.index() && null_schema(#[trigger] qv(__q0)[i]))
@loopstart 0
assert(qv(__q0)[it0.index()] == vv(*__e0));
@afterloop 0
proof { assert(__r0 == any_null(qv(__q0))); }
@start
proof {
  let v0 = sv(*schema);
  theorem_idempotent(v0);
  if anl_dom(v0) && no_kw_no_constraint() { assert forall|x: V| #[trigger] acc(f_anl(v0), x) <==> (x is Null || acc(v0, x)) by { theorem_accepts_null(v0, x); } }
}
