@@ C21: what the presets' transforms leave in a document
@verus
/// the keywords (and forms) a dialect lacks; pw and tw are well-formedness facts the transforms rely on
pub struct Cl { pub up: bool, pub rs: bool, pub pi: bool, pub bl: bool, pub nl: bool, pub ex: bool, pub cn: bool, pub pw: bool, pub tw: bool }
pub open spec fn flat_arr(v: V) -> bool { match v { V::Arr(a) => forall|i: int| 0 <= i < a.len() ==> !((#[trigger] a[i]) is Arr), _ => true } }
pub open spec fn clean_here(c: Cl, m: VM) -> bool {
  &&& c.up ==> !m.dom().contains("unevaluatedProperties"@)
  &&& c.rs ==> !(m.dom().contains("$ref"@) && m.len() > 1)
  &&& c.pi ==> !m.dom().contains("prefixItems"@)
  &&& c.nl ==> !has_type_spec(V::Obj(m), "null"@)
  &&& c.ex ==> !m.dom().contains("examples"@)
  &&& c.cn ==> !m.dom().contains("const"@)
  &&& c.pw ==> (m.dom().contains("prefixItems"@) ==> m["prefixItems"@] is Arr)
  &&& c.tw ==> (m.dom().contains("type"@) ==> flat_arr(m["type"@]))
}
/// no object in subschema position has what c rules out, and (bl) there is no boolean schema other than a boolean additionalProperties
pub open spec fn clean(c: Cl, v: V) -> bool decreases v {
  match v {
    V::Bool(_) => !c.bl,
    V::Obj(m) => clean_here(c, m) && forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) && below(x, v) ==> (k == "additionalProperties"@ && x is Bool) || clean(c, x),
    _ => true,
  }
}
pub open spec fn kid_ok(c: Cl, k: Str, x: V) -> bool { (k == "additionalProperties"@ && x is Bool) || clean(c, x) }
pub open spec fn kids(c: Cl, m: VM) -> bool { forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) ==> kid_ok(c, k, x) }
pub proof fn lemma_clean(c: Cl, m: VM) ensures clean(c, V::Obj(m)) <==> clean_here(c, m) && kids(c, m) {
  assert forall|k: Str, x: V| m.dom().contains(k) && #[trigger] subpos(k, m[k], x) implies below(x, V::Obj(m)) by { lemma_subpos_below(m, k, x); }
}
pub proof fn lemma_subpos_back(k: Str, v: V, f: spec_fn(V) -> V, y: V) -> (x: V)
  requires subpos(k, sub_val(k, v, f), y), is_schema(y), forall|x: V| is_schema(x) ==> is_schema(#[trigger] f(x))
  ensures subpos(k, v, x), is_schema(x), y == f(x)
{
  let w = sub_val(k, v, f);
  lemma_kwid();
  if is_sub1(k) { v }
  else if is_subarr(k) || (k == "items"@ && v is Arr) {
    let a = v->Arr_0; let b = w->Arr_0;
    let i = choose|i: int| 0 <= i < b.len() && b[i] == y;
    assert(a.contains(a[i])); a[i]
  } else if k == "items"@ { v }
  else {
    let a = v->Obj_0; let b = w->Obj_0;
    let i = choose|i: Str| b.dom().contains(i) && b[i] == y;
    assert(a.contains_value(a[i])); a[i]
  }
}
/// the subschemas after f has been applied to each of them
pub proof fn lemma_kids_subs(c: Cl, d: Cl, m: VM, f: spec_fn(V) -> V)
  requires kids(c, m), forall|x: V| is_schema(x) ==> is_schema(#[trigger] f(x)),
    forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) && kid_ok(c, k, x) ==> kid_ok(d, k, f(x))
  ensures kids(d, subs_m(m, f))
{
  let n = subs_m(m, f);
  assert forall|k: Str, y: V| n.dom().contains(k) && is_schema(y) && #[trigger] subpos(k, n[k], y) implies kid_ok(d, k, y) by {
    assert(n[k] == sub_val(k, m[k], f));
    let x = lemma_subpos_back(k, m[k], f, y);
    assert(subpos(k, m[k], x));
  }
}
/// keywords that hold no schema are untouched
pub proof fn lemma_subs_here(c: Cl, m: VM, f: spec_fn(V) -> V)
  requires clean_here(c, m)
  ensures clean_here(c, subs_m(m, f))
{
  lemma_kwid();
  let n = subs_m(m, f);
  assert(n.dom() =~= m.dom());
  if m.dom().contains("type"@) { assert(n["type"@] == m["type"@]); }
}
pub open spec fn n_rup(c: Cl) -> Cl { Cl { up: true, bl: false, ..c } }
pub open spec fn n_rbs(c: Cl) -> Cl { Cl { bl: true, ..c } }
pub open spec fn n_an(c: Cl) -> Cl { Cl { nl: true, cn: false, ..c } }
pub open spec fn n_rrs(c: Cl) -> Cl { Cl { rs: true, ..c } }
pub open spec fn n_sse(c: Cl) -> Cl { Cl { ex: true, ..c } }
pub open spec fn n_rcv(c: Cl) -> Cl { Cl { cn: true, ..c } }
pub open spec fn n_rpi(c: Cl) -> Cl { Cl { pi: true, ..c } }
pub proof fn lemma_same_kids(c: Cl, n: VM, m: VM)
  requires kids(c, n), forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) ==> n.dom().contains(k) && n[k] == m[k]
  ensures kids(c, m)
{ }
pub proof fn lemma_l_rup(c: Cl, n: VM)
  requires kids(n_rup(c), n), clean_here(c, n)
  ensures kids(n_rup(c), l_rup(n)), clean_here(n_rup(c), l_rup(n))
{
  lemma_kwid();
  let d = n_rup(c);
  if n.dom().contains("unevaluatedProperties"@) {
    let up = n["unevaluatedProperties"@];
    let m1 = n.remove("unevaluatedProperties"@).insert("additionalProperties"@, up);
    assert(m1.len() <= n.len());
    assert forall|k: Str, x: V| m1.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m1[k], x) implies kid_ok(d, k, x) by {
      if k == "additionalProperties"@ { assert(subpos("unevaluatedProperties"@, n["unevaluatedProperties"@], x)); } else { assert(subpos(k, n[k], x)); }
    }
    let names = prop_names(V::Obj(m1));
    let r = l_rup(n);
    assert forall|k: Str, x: V| r.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, r[k], x) implies kid_ok(d, k, x) by {
      if k == "properties"@ && r != m1 {
        let p = match mget(m1, "properties"@) { Some(V::Obj(p)) => p, _ => SMap::empty() };
        let a = r["properties"@]->Obj_0;
        lemma_add_exists(p, V::Obj(m1));
        let i = choose|i: Str| a.dom().contains(i) && a[i] == x;
        if p.dom().contains(i) { assert(p.contains_value(p[i])); assert(subpos(k, m1[k], x)); } else { assert(x == V::Bool(true)); }
      } else { assert(subpos(k, m1[k], x)); }
    }
    if n.dom().contains("$ref"@) && c.rs { assert(n.dom().contains("$ref"@) && n.dom().contains("unevaluatedProperties"@)); lemma_two_keys(n, "$ref"@, "unevaluatedProperties"@); }
  }
}
pub proof fn lemma_two_keys(m: VM, a: Str, b: Str)
  requires m.dom().contains(a), m.dom().contains(b), a != b
  ensures m.len() > 1
{
  let s = m.dom();
  assert(s.remove(a).contains(b));
  assert(s.remove(a).len() > 0) by { if s.remove(a).len() == 0 { assert(s.remove(a) =~= Set::empty()); } }
}
// the names gathered from a finite document are finitely many
pub open spec fn has_all(s: Set<Str>, i: ISet<Str>) -> bool { forall|n: Str| #[trigger] i.contains(n) ==> s.contains(n) }
pub proof fn lemma_names_fin(v: V) -> (s: Set<Str>)
  ensures has_all(s, prop_names(v))
  decreases v, 2int, 0int
{
  match v {
    V::Obj(m) => {
      lemma_prop_names(m);
      let a = lemma_inplace_fin(v, m, m.dom());
      let b = match mget(m, "properties"@) { Some(V::Obj(p)) => p.dom(), _ => Set::empty() };
      let s = a.union(b);
      assert forall|n: Str| #[trigger] prop_names(v).contains(n) implies s.contains(n) by {
        if !own_names(m).contains(n) {
          assert(inplace_names(m).contains(n));
          let k = choose|k: Str| m.dom().contains(k) && #[trigger] kw_names(k, m[k]).contains(n);
          assert(m.dom().contains(k));
        }
      }
      s
    }
    _ => Set::empty(),
  }
}
pub proof fn lemma_inplace_fin(v: V, m: VM, ks: Set<Str>) -> (s: Set<Str>)
  requires v == V::Obj(m), ks.subset_of(m.dom())
  ensures forall|k: Str| ks.contains(k) ==> has_all(s, #[trigger] kw_names(k, m[k]))
  decreases v, 1int, ks.len()
{
  if ks.len() == 0 { assert(ks =~= Set::empty()); Set::empty() } else {
    let k = ks.choose();
    assert(ks.contains(k)) by { if forall|x: Str| !ks.contains(x) { assert(ks =~= Set::empty()); } }
    let a = lemma_inplace_fin(v, m, ks.remove(k));
    lemma_kw_names(k, m[k]);
    let b = if is_inplace1(k) && is_schema(m[k]) { assert(subpos(k, m[k], m[k])) by { lemma_kwid(); } lemma_subpos_below(m, k, m[k]); lemma_names_fin(m[k]) }
      else if is_inplacearr(k) && m[k] is Arr { lemma_kw_fin(v, m, k, m[k]->Arr_0.len() as int) } else { Set::empty() };
    let s = a.union(b);
    assert forall|j: Str| ks.contains(j) implies has_all(s, #[trigger] kw_names(j, m[j])) by {
      if j != k { assert(ks.remove(k).contains(j)); }
      else { assert forall|n: Str| #[trigger] kw_names(k, m[k]).contains(n) implies b.contains(n) by {
        if is_inplacearr(k) && m[k] is Arr {
          let x = choose|x: V| #[trigger] ipos(k, m[k], x) && prop_names(x).contains(n);
          let q = m[k]->Arr_0;
          assert(!is_inplace1(k)) by { lemma_kwid(); }
          let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
          assert(has_all(b, prop_names(q[i])));
        }
      } }
    }
    s
  }
}
pub proof fn lemma_kw_fin(v: V, m: VM, k: Str, n: int) -> (s: Set<Str>)
  requires v == V::Obj(m), m.dom().contains(k), is_inplacearr(k), m[k] is Arr, 0 <= n <= m[k]->Arr_0.len()
  ensures forall|i: int| 0 <= i < n && is_schema(m[k]->Arr_0[i]) ==> has_all(s, prop_names(#[trigger] m[k]->Arr_0[i]))
  decreases v, 0int, n
{
  if n == 0 { Set::empty() } else {
    let a = lemma_kw_fin(v, m, k, n - 1);
    let q = m[k]->Arr_0;
    let x = q[n - 1];
    if is_schema(x) {
      assert(q.contains(x));
      assert(subpos(k, m[k], x)) by { lemma_kwid(); }
      lemma_subpos_below(m, k, x);
      let b = lemma_names_fin(x);
      a.union(b)
    } else { a }
  }
}
pub proof fn lemma_add_exists(p: VM, v: V)
  ensures is_add(p, prop_names(v), add_names(p, prop_names(v)))
{
  let names = prop_names(v);
  let s0 = lemma_names_fin(v);
  let s = s0.filter(|n: Str| names.contains(n));
  let t = SMap::<Str, V>::new(s, |n: Str| V::Bool(true));
  let r = t.union_prefer_right(p);
  assert forall|k: Str| (#[trigger] r.dom().contains(k) <==> (p.dom().contains(k) || names.contains(k))) && (r.dom().contains(k) ==> r[k] == (if p.dom().contains(k) { p[k] } else { V::Bool(true) })) by {
    if names.contains(k) { assert(s.contains(k)); }
  }
  assert(is_add(p, names, r));
}
@for $F|$L|$N|$H <- f_rup|l_rup|n_rup|lemma_l_rup ;; f_rrs|l_rrs|n_rrs|lemma_l_rrs ;; f_sse|l_sse|n_sse|lemma_l_sse ;; f_rcv|l_rcv|n_rcv|lemma_l_rcv ;; f_rpi|l_rpi|n_rpi|lemma_l_rpi
pub broadcast proof fn lemma_c_$F(c: Cl, v: V)
  requires clean(c, v), is_schema(v), $N(c).bl ==> c.bl, $N(c).pi && !c.pi ==> c.pw
  ensures #![trigger clean(c, v), $F(v)] clean($N(c), $F(v)), is_schema($F(v))
  decreases v
{
  match v { V::Obj(m) => {
    lemma_$F(m);
    lemma_clean(c, m);
    let f = c$F();
    let n = subs_m(m, f);
    assert forall|x: V| is_schema(x) implies is_schema(#[trigger] f(x)) by { match x { V::Obj(xm) => { lemma_$F(xm); } _ => { } } }
    assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) && kid_ok(c, k, x) implies kid_ok($N(c), k, f(x)) by {
      lemma_subpos_below(m, k, x);
      if clean(c, x) { lemma_c_$F(c, x); }
    }
    lemma_kids_subs(c, $N(c), m, f);
    lemma_subs_here(c, m, f);
    $H(c, n);
    lemma_clean($N(c), $L(n));
  } _ => { } }
}
@endfor
@verus
pub proof fn lemma_l_rrs(c: Cl, n: VM)
  requires kids(n_rrs(c), n), clean_here(c, n)
  ensures kids(n_rrs(c), l_rrs(n)), clean_here(n_rrs(c), l_rrs(n))
{
  lemma_kwid();
  let d = n_rrs(c);
  if n.len() > 1 && n.dom().contains("$ref"@) {
    let m2 = n.remove("$ref"@);
    let r = l_rrs(n);
    let om = SMap::<Str, V>::empty().insert("$ref"@, n["$ref"@]);
    let one = V::Obj(om);
    assert(om.len() == 1);
    lemma_clean(d, om);
    assert forall|k: Str, x: V| om.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, om[k], x) implies kid_ok(d, k, x) by { }
    assert(clean(d, one));
    assert forall|k: Str, x: V| r.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, r[k], x) implies kid_ok(d, k, x) by {
      if k == "allOf"@ && r != m2 {
        let b = r["allOf"@]->Arr_0;
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        if i < b.len() - 1 {
          let a = n["allOf"@]->Arr_0;
          assert(n.dom().contains("allOf"@) && b == a.push(one));
          assert(a.contains(a[i])); assert(subpos(k, n[k], x));
        } else { assert(x == one); }
      } else { assert(subpos(k, n[k], x)); }
    }
  }
}
pub proof fn lemma_l_sse(c: Cl, n: VM)
  requires kids(n_sse(c), n), clean_here(c, n)
  ensures kids(n_sse(c), l_sse(n)), clean_here(n_sse(c), l_sse(n))
{
  lemma_kwid();
  let r = l_sse(n);
  assert forall|k: Str, x: V| r.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, r[k], x) implies kid_ok(n_sse(c), k, x) by { assert(subpos(k, n[k], x)); }
  if n.dom().contains("examples"@) && n.dom().contains("$ref"@) { lemma_two_keys(n, "examples"@, "$ref"@); }
}
pub proof fn lemma_l_rcv(c: Cl, n: VM)
  requires kids(n_rcv(c), n), clean_here(c, n)
  ensures kids(n_rcv(c), l_rcv(n)), clean_here(n_rcv(c), l_rcv(n))
{
  lemma_kwid();
  let r = l_rcv(n);
  assert forall|k: Str, x: V| r.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, r[k], x) implies kid_ok(n_rcv(c), k, x) by { assert(subpos(k, n[k], x)); }
  if n.dom().contains("const"@) && n.dom().contains("$ref"@) { lemma_two_keys(n, "const"@, "$ref"@); }
}
pub proof fn lemma_l_rpi(c: Cl, n: VM)
  requires kids(n_rpi(c), n), clean_here(c, n), c.pw || c.pi
  ensures kids(n_rpi(c), l_rpi(n)), clean_here(n_rpi(c), l_rpi(n))
{
  lemma_kwid();
  let d = n_rpi(c);
  let r = l_rpi(n);
  if n.dom().contains("prefixItems"@) {
    assert forall|k: Str, x: V| r.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, r[k], x) implies kid_ok(d, k, x) by {
      if k == "items"@ { assert(subpos("prefixItems"@, n["prefixItems"@], x)); }
      else if k == "additionalItems"@ && n.dom().contains("items"@) { assert(subpos("items"@, n["items"@], x)); }
      else { assert(subpos(k, n[k], x)); }
    }
    if n.dom().contains("$ref"@) { lemma_two_keys(n, "prefixItems"@, "$ref"@); }
  }
}
pub proof fn lemma_bool_obj(c: Cl, b: bool)
  ensures clean(c, V::Obj(as_obj(V::Bool(b))))
{
  lemma_kwid();
  let m = as_obj(V::Bool(b));
  lemma_clean(c, m);
  assert(m.len() <= 1);
  let e = V::Obj(SMap::<Str, V>::empty());
  lemma_clean(c, SMap::empty());
  assert(clean(c, e));
  assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies kid_ok(c, k, x) by { assert(x == e); }
}
pub broadcast proof fn lemma_c_rbs(c: Cl, s: bool, v: V)
  requires clean(c, v), is_schema(v)
  ensures #![trigger clean(c, v), f_rbs(s, v)] clean(n_rbs(c), f_rbs(s, v)), is_schema(f_rbs(s, v))
  decreases v
{
  lemma_kwid();
  let d = n_rbs(c);
  match v { V::Obj(m) => {
    lemma_f_rbs(s, m);
    lemma_clean(c, m);
    let f = cf_rbs(s);
    let n = subs_m(m, f);
    assert forall|x: V| is_schema(x) implies is_schema(#[trigger] f(x)) by { match x { V::Obj(xm) => { lemma_f_rbs(s, xm); } _ => { } } }
    assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) && kid_ok(c, k, x) implies kid_ok(d, k, f(x)) by {
      lemma_subpos_below(m, k, x);
      match x { V::Bool(b) => { lemma_bool_obj(d, b); } _ => { lemma_c_rbs(c, s, x); } }
    }
    lemma_kids_subs(c, d, m, f);
    lemma_subs_here(c, m, f);
    lemma_clean(d, n);
    if s && m.dom().contains("additionalProperties"@) && m["additionalProperties"@] is Bool {
      let r = n.insert("additionalProperties"@, m["additionalProperties"@]);
      assert(r.dom() =~= n.dom());
      assert forall|k: Str, x: V| r.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, r[k], x) implies kid_ok(d, k, x) by { if k != "additionalProperties"@ { assert(subpos(k, n[k], x)); } }
      lemma_clean(d, r);
    }
  } V::Bool(b) => { lemma_bool_obj(d, b); } _ => { } }
}
pub proof fn lemma_non_null(a: Seq<V>)
  ensures forall|i: int| 0 <= i < non_null(a).len() ==> !is_null_ty(#[trigger] non_null(a)[i]) && a.contains(non_null(a)[i])
  decreases a.len()
{
  if a.len() > 0 {
    lemma_non_null(a.drop_last());
    let q = non_null(a);
    assert forall|i: int| 0 <= i < q.len() implies !is_null_ty(#[trigger] q[i]) && a.contains(q[i]) by {
      let p = non_null(a.drop_last());
      if i < p.len() { assert(q[i] == p[i]); let j = choose|j: int| 0 <= j < a.drop_last().len() && a.drop_last()[j] == p[i]; assert(a[j] == p[i]); }
      else { assert(a.last() == a[a.len() - 1]); }
    }
  }
}
pub proof fn lemma_l_an(c: Cl, ac: bool, m: VM)
  requires clean_here(c, m), c.tw
  ensures clean_here(n_an(c), l_an(true, ac, m)), forall|k: Str, x: V| l_an(true, ac, m).dom().contains(k) && is_schema(x) && #[trigger] subpos(k, l_an(true, ac, m)[k], x) ==> m.dom().contains(k) && m[k] == l_an(true, ac, m)[k]
{
  lemma_kwid();
  let r = l_an(true, ac, m);
  if has_type_spec(V::Obj(m), "null"@) {
    if m.dom().contains("$ref"@) { lemma_two_keys(m, "type"@, "$ref"@); }
    match m["type"@] { V::Arr(a) => { lemma_non_null(a);
      if non_null(a).len() == 1 { assert(a.contains(non_null(a)[0])); let j = choose|j: int| 0 <= j < a.len() && a[j] == non_null(a)[0]; assert(!(a[j] is Arr)); }
      else { assert forall|i: int| 0 <= i < non_null(a).len() implies !((#[trigger] non_null(a)[i]) is Arr) by { let j = choose|j: int| 0 <= j < a.len() && a[j] == non_null(a)[i]; assert(!(a[j] is Arr)); } }
    } _ => { } }
  }
}
pub broadcast proof fn lemma_c_an(c: Cl, ac: bool, v: V)
  requires clean(c, v), is_schema(v), c.tw
  ensures #![trigger clean(c, v), f_an(true, ac, v)] clean(n_an(c), f_an(true, ac, v)), is_schema(f_an(true, ac, v))
  decreases v
{
  match v { V::Obj(m) => {
    let d = n_an(c);
    lemma_f_an(true, ac, m);
    lemma_clean(c, m);
    let l = l_an(true, ac, m);
    lemma_l_an(c, ac, m);
    let f = cf_an(true, ac);
    assert forall|x: V| is_schema(x) implies is_schema(#[trigger] f(x)) by { match x { V::Obj(xm) => { lemma_f_an(true, ac, xm); } _ => { } } }
    assert forall|k: Str, x: V| l.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, l[k], x) implies kid_ok(c, k, x) by { assert(subpos(k, m[k], x)); }
    assert forall|k: Str, x: V| l.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, l[k], x) && kid_ok(c, k, x) implies kid_ok(d, k, f(x)) by {
      assert(subpos(k, m[k], x));
      lemma_subpos_below(m, k, x);
      if clean(c, x) { lemma_c_an(c, ac, x); }
    }
    lemma_kids_subs(c, d, l, f);
    lemma_subs_here(d, l, f);
    lemma_clean(d, subs_m(l, f));
  } _ => { } }
}
pub open spec fn le(d: Cl, c: Cl) -> bool { (d.up ==> c.up) && (d.rs ==> c.rs) && (d.pi ==> c.pi) && (d.bl ==> c.bl) && (d.nl ==> c.nl) && (d.ex ==> c.ex) && (d.cn ==> c.cn) && (d.pw ==> c.pw) && (d.tw ==> c.tw) }
pub proof fn lemma_le(d: Cl, c: Cl, v: V)
  requires clean(c, v), le(d, c)
  ensures clean(d, v)
  decreases v
{
  match v { V::Obj(m) => {
    lemma_clean(c, m); lemma_clean(d, m);
    assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies kid_ok(d, k, x) by { lemma_subpos_below(m, k, x); if clean(c, x) { lemma_le(d, c, x); } }
  } _ => { } }
}
