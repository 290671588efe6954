@@ json_schema_for_flatten, the newtype variant of an internally tagged enum (C15)
@type _private/mod.rs AllowUnknownProperties
@verus
impl AllowUnknownProperties {
  // #[derive(Default)]
  pub fn default() -> (r: Self) ensures !r.did_modify { AllowUnknownProperties { did_modify: false } }
}
pub open spec fn isub_val(k: Str, v: V, f: spec_fn(V) -> V) -> V { if is_inplace1(k) { app(v, f) } else if is_inplacearr(k) { app_arr(v, f) } else { v } }
pub open spec fn isubs_m(m: VM, f: spec_fn(V) -> V) -> VM { m.map_entries(|k: Str, x: V| isub_val(k, x, f)) }
/// f applied to every in-place subschema
pub open spec fn isubs(v: V, f: spec_fn(V) -> V) -> V { match v { V::Obj(m) => V::Obj(isubs_m(m, f)), _ => v } }
pub proof fn lemma_ipos_sub(k: Str, v: V, x: V) requires ipos(k, v, x) ensures subpos(k, v, x) { }
pub proof fn lemma_isub_val_cong(k: Str, v: V, f: spec_fn(V) -> V, g: spec_fn(V) -> V)
  requires forall|x: V| #[trigger] ipos(k, v, x) ==> f(x) == g(x)
  ensures isub_val(k, v, f) == isub_val(k, v, g)
{
  if is_inplace1(k) { if is_schema(v) { assert(ipos(k, v, v)); } }
  else if is_inplacearr(k) && v is Arr {
    let a = v->Arr_0;
    assert forall|i: int| 0 <= i < a.len() implies app(#[trigger] a[i], f) == app(a[i], g) by { assert(a.contains(a[i])); if is_schema(a[i]) { assert(ipos(k, v, a[i])); } }
    assert(a.map_values(|x: V| app(x, f)) =~= a.map_values(|x: V| app(x, g)));
  }
}
pub proof fn lemma_isubs_cong(m: VM, f: spec_fn(V) -> V, g: spec_fn(V) -> V)
  requires forall|k: Str, x: V| m.dom().contains(k) && #[trigger] ipos(k, m[k], x) ==> f(x) == g(x)
  ensures isubs_m(m, f) == isubs_m(m, g)
{
  assert forall|k: Str| m.dom().contains(k) implies #[trigger] isub_val(k, m[k], f) == isub_val(k, m[k], g) by { lemma_isub_val_cong(k, m[k], f, g); }
  assert(isubs_m(m, f) =~= isubs_m(m, g));
}
pub broadcast proof fn lemma_isubs_ext(m: VM, f: spec_fn(V) -> V, g: spec_fn(V) -> V)
  requires forall|x: V| #[trigger] f(x) == g(x)
  ensures #[trigger] isubs_m(m, f) == #[trigger] isubs_m(m, g)
{ lemma_isubs_cong(m, f, g); }
pub broadcast proof fn lemma_isubs_m(old: VM, new: VM, f: spec_fn(V) -> V)
  requires old.dom() == #[trigger] new.dom(), forall|k: Str| old.dom().contains(k) ==> #[trigger] new[k] == isub_val(k, old[k], f)
  ensures V::Obj(new) == V::Obj(#[trigger] isubs_m(old, f))
{ assert(new =~= isubs_m(old, f)); }
pub broadcast group group_isubs { lemma_app_arr, lemma_isubs_m }
pub open spec fn is_false(m: VM, k: Str) -> bool { mget(m, k) == Some(V::Bool(false)) }
pub open spec fn bad(m: VM) -> bool { is_false(m, "additionalProperties"@) || is_false(m, "unevaluatedProperties"@) }
pub open spec fn drop_false(m: VM, k: Str) -> VM { if is_false(m, k) { m.remove(k) } else { m } }
pub open spec fn l_au(m: VM) -> VM { drop_false(drop_false(m, "additionalProperties"@), "unevaluatedProperties"@) }
/// no in-place schema forbids unknown properties any more
pub open spec fn f_au(v: V) -> V decreases v {
  match v { V::Obj(m) => V::Obj(isubs_m(l_au(m), |x: V| if below(x, v) { f_au(x) } else { x })), _ => v }
}
pub open spec fn cf_au() -> spec_fn(V) -> V { |x: V| f_au(x) }
pub proof fn lemma_f_au(m: VM) ensures f_au(V::Obj(m)) == V::Obj(isubs_m(l_au(m), cf_au())) {
  lemma_kwid();
  let v = V::Obj(m);
  let l = l_au(m);
  let g = |x: V| if below(x, v) { f_au(x) } else { x };
  let f = cf_au();
  assert forall|k: Str, x: V| l.dom().contains(k) && #[trigger] ipos(k, l[k], x) implies f(x) == g(x) by { lemma_ipos_sub(k, m[k], x); lemma_subpos_below(m, k, x); }
  lemma_isubs_cong(l, f, g);
  broadcast use lemma_isubs_ext;
}
/// unknown properties are forbidden by the schema itself or by an in-place subschema, at any depth
pub open spec fn forbids(v: V) -> bool decreases v {
  match v { V::Obj(m) => bad(m) || exists|k: Str, x: V| m.dom().contains(k) && #[trigger] ipos(k, m[k], x) && below(x, v) && forbids(x), _ => false }
}
pub open spec fn kw_fb(k: Str, v: V) -> bool { exists|x: V| #[trigger] ipos(k, v, x) && forbids(x) }
/// ... by an in-place subschema
pub open spec fn ip_fb(m: VM) -> bool { exists|k: Str| m.dom().contains(k) && #[trigger] kw_fb(k, m[k]) }
pub open spec fn ip_forbids(v: V) -> bool { match v { V::Obj(m) => ip_fb(m), _ => false } }
pub proof fn lemma_forbids(m: VM) ensures forbids(V::Obj(m)) == (bad(m) || ip_fb(m)) {
  let v = V::Obj(m);
  assert forall|k: Str, x: V| m.dom().contains(k) && #[trigger] ipos(k, m[k], x) implies below(x, v) by { lemma_ipos_sub(k, m[k], x); lemma_subpos_below(m, k, x); }
  if ip_fb(m) {
    let k = choose|k: Str| m.dom().contains(k) && #[trigger] kw_fb(k, m[k]);
    let x = choose|x: V| #[trigger] ipos(k, m[k], x) && forbids(x);
    assert(ipos(k, m[k], x) && below(x, v) && forbids(x));
  }
  if forbids(v) && !bad(m) {
    let (k, x) = choose|k: Str, x: V| m.dom().contains(k) && #[trigger] ipos(k, m[k], x) && below(x, v) && forbids(x);
    assert(kw_fb(k, m[k]));
  }
}
pub proof fn lemma_ip_l_au(m: VM) ensures ip_fb(l_au(m)) == ip_fb(m) {
  lemma_kwid();
  let l = l_au(m);
  if ip_fb(m) { let k = choose|k: Str| m.dom().contains(k) && #[trigger] kw_fb(k, m[k]); let x = choose|x: V| #[trigger] ipos(k, m[k], x) && forbids(x); assert(l[k] == m[k] && kw_fb(k, l[k])); }
  if ip_fb(l) { let k = choose|k: Str| l.dom().contains(k) && #[trigger] kw_fb(k, l[k]); assert(l[k] == m[k] && kw_fb(k, m[k])); }
}
/// the transform leaves nothing that forbids unknown properties
pub proof fn theorem_open(v: V) ensures !forbids(f_au(v)) decreases v {
  if let V::Obj(m) = v {
    lemma_kwid();
    lemma_f_au(m);
    let l = l_au(m);
    let r = isubs_m(l, cf_au());
    lemma_forbids(r);
    assert(isub_val("additionalProperties"@, l["additionalProperties"@], cf_au()) == l["additionalProperties"@]);
    assert(isub_val("unevaluatedProperties"@, l["unevaluatedProperties"@], cf_au()) == l["unevaluatedProperties"@]);
    assert(!bad(r));
    assert forall|k: Str| r.dom().contains(k) implies !(#[trigger] kw_fb(k, r[k])) by {
      if kw_fb(k, r[k]) {
        let x = choose|x: V| #[trigger] ipos(k, r[k], x) && forbids(x);
        assert(l[k] == m[k]);
        let w = m[k];
        if is_inplace1(k) { if is_schema(w) { lemma_ipos_sub(k, w, w); lemma_subpos_below(m, k, w); theorem_open(w); } }
        else {
          let a = r[k]->Arr_0; let b = w->Arr_0;
          let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
          assert(b.contains(b[i]));
          if is_schema(b[i]) { assert(ipos(k, w, b[i])); lemma_ipos_sub(k, w, b[i]); lemma_subpos_below(m, k, b[i]); theorem_open(b[i]); }
        }
      }
    }
  }
}
/// something among the first i entries / elements forbids unknown properties
pub open spec fn ent_fb(q: Seq<(&String, &mut Value)>, i: int) -> bool { exists|j: int| 0 <= j < i && kw_fb((#[trigger] q[j]).0@, vv(*q[j].1)) }
pub open spec fn elt_fb(q: Seq<&mut Value>, i: int) -> bool { exists|j: int| 0 <= j < i && is_schema(vv(*#[trigger] q[j])) && forbids(vv(*q[j])) }
pub broadcast proof fn lemma_elt_fb(k: Str, v: V, q: Seq<&mut Value>)
  requires v == V::Arr(cur(q)), is_inplacearr(k)
  ensures #[trigger] kw_fb(k, v) == #[trigger] elt_fb(q, q.len() as int)
{
  lemma_kwid();
  let a = cur(q);
  if kw_fb(k, v) { let x = choose|x: V| #[trigger] ipos(k, v, x) && forbids(x); let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert(is_schema(vv(*q[j]))); }
  if elt_fb(q, q.len() as int) {
    let j = choose|j: int| 0 <= j < q.len() && is_schema(vv(*#[trigger] q[j])) && forbids(vv(*q[j]));
    assert(a[j] == vv(*q[j])); assert(a.contains(a[j])); assert(ipos(k, v, a[j]));
  }
}
pub proof fn lemma_ent_all(q: Seq<(&String, &mut Value)>, o: Map<String, Value>)
  requires q.len() == mkeys(o).len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0@ == mkeys(o)[i] && vv(*q[i].1) == mv(o)[mkeys(o)[i]]
  ensures ent_fb(q, q.len() as int) == ip_fb(mv(o))
{
  let m = mv(o);
  if ent_fb(q, q.len() as int) {
    let j = choose|j: int| 0 <= j < q.len() && kw_fb((#[trigger] q[j]).0@, vv(*q[j].1));
    let k = mkeys(o)[j];
    ax_mkeys(o);
    assert(mkeys(o).contains(k)); assert(mkeys(o).to_set().contains(k));
    assert(kw_fb(k, m[k]));
  }
  if ip_fb(m) { let k = choose|k: Str| m.dom().contains(k) && #[trigger] kw_fb(k, m[k]); assert(q[midx(o, k)].0@ == k); }
}
pub proof fn lemma_elt_step(q: Seq<&mut Value>, i: int)
  requires 0 <= i < q.len()
  ensures elt_fb(q, i + 1) == (elt_fb(q, i) || (is_schema(vv(*q[i])) && forbids(vv(*q[i]))))
{ if is_schema(vv(*q[i])) && forbids(vv(*q[i])) { assert(0 <= i < i + 1); } }
pub proof fn lemma_ent_step(q: Seq<(&String, &mut Value)>, i: int)
  requires 0 <= i < q.len()
  ensures ent_fb(q, i + 1) == (ent_fb(q, i) || kw_fb(q[i].0@, vv(*q[i].1)))
{ if kw_fb(q[i].0@, vv(*q[i].1)) { assert(0 <= i < i + 1); } }
pub proof fn lemma_kw_fb(k: Str, v: V)
  ensures is_inplace1(k) ==> kw_fb(k, v) == (is_schema(v) && forbids(v)), !is_inplace1(k) && !is_inplacearr(k) ==> !kw_fb(k, v), is_inplacearr(k) && !(v is Arr) ==> !kw_fb(k, v)
{ lemma_kwid(); if is_inplace1(k) && is_schema(v) { assert(ipos(k, v, v)); } }
@fn transform.rs transform_immediate_subschemas
@as transform_immediate_subschemas__AllowUnknownProperties
@subst T=AllowUnknownProperties
@deps AllowUnknownProperties::transform
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(true)]
@nloops 2
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), isubs(sv(*old(schema)), cf_au())), final(t).did_modify == (old(t).did_modify || ip_forbids(sv(*old(schema))))
@start
broadcast use group_isubs;
let ghost f0 = cf_au();
let ghost n0 = t.did_modify;
let ghost v0 = sv(*schema);
let ghost m0 = obj_of(schema.0);
@loop 0
  invariant f0 == cf_au(), it0.seq() == __q0, t.did_modify == (n0 || ent_fb(__q0, it0.index())),
    forall|i: int| 0 <= i < it0.index() ==> vv(*final((#[trigger] __q0[i]).1)) == isub_val(__q0[i].0@, vv(*__q0[i].1), f0)
@loopstart 0
broadcast use {group_isubs, lemma_elt_fb};
let ghost b0 = t.did_modify;
proof { lemma_ent_step(__q0, it0.index()); lemma_kw_fb(__q0[it0.index()].0@, vv(*__q0[it0.index()].1)); }
@afterloop 0
proof { lemma_ent_all(__q0, m0); }
@loop 1
  invariant f0 == cf_au(), it1.seq() == __q1, t.did_modify == (b0 || elt_fb(__q1, it1.index())),
    forall|i: int| 0 <= i < it1.index() ==> vv(*final(#[trigger] __q1[i])) == app(vv(*__q1[i]), f0)
@loopstart 1
proof { lemma_elt_step(__q1, it1.index()); }
@fn _private/mod.rs impl Transform for AllowUnknownProperties / transform
@kind method
@call transform_immediate_subschemas=>transform_immediate_subschemas__AllowUnknownProperties
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), f_au(sv(*old(schema)))), is_schema(sv(*final(schema))), final(self).did_modify == (old(self).did_modify || forbids(sv(*old(schema))))
@start
let ghost v0 = sv(*schema);
proof { if v0 is Obj { lemma_f_au(v0->Obj_0); lemma_forbids(v0->Obj_0); lemma_ip_l_au(v0->Obj_0); } }
@verus
// ---- unit variants
pub open spec fn empty_obj() -> V { V::Obj(SMap::<Str, V>::empty()) }
/// {"type": "object", "properties": {name: {"type": "null"}}, "required": [name]}
pub open spec fn unit_obj(name: Str) -> V {
  V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("object"@)).insert("properties"@, V::Obj(SMap::<Str, V>::empty().insert(name, obj1("type"@, V::Str("null"@))))).insert("required"@, V::Arr(Seq::<V>::empty().push(V::Str(name)))))
}
pub open spec fn unit_objs(q: Seq<V>) -> Seq<V> decreases q.len() {
  if q.len() == 0 { Seq::empty() } else { let r = unit_objs(q.drop_last()); match q.last() { V::Str(s) => r.push(unit_obj(s)), _ => r } }
}
pub open spec fn is_string(m: VM) -> bool { mget(m, "type"@) == Some(V::Str("string"@)) }
/// an enum keyword, where present, is an array (the keyword's definition)
pub open spec fn enum_wf(m: VM) -> bool { m.dom().contains("enum"@) ==> m["enum"@] is Arr }
/// the unit variants of an externally tagged enum: its string enum, or that of its first oneOf alternative
pub open spec fn first_of(m: VM) -> Option<VM> { match mget(m, "oneOf"@) { Some(V::Arr(a)) => if a.len() > 0 && a[0] is Obj { Some(a[0]->Obj_0) } else { None }, _ => None } }
pub open spec fn units(m: VM) -> Option<Seq<V>> {
  if is_string(m) && m.dom().contains("enum"@) { Some(m["enum"@]->Arr_0) }
  else { match first_of(m) { Some(f) => if is_string(f) && f.dom().contains("enum"@) { Some(f["enum"@]->Arr_0) } else { None }, None => None } }
}
/// the rest of the enum
pub open spec fn no_units(m: VM) -> VM {
  if is_string(m) && m.dom().contains("enum"@) { m.remove("enum"@).remove("type"@) } else if units(m) is Some { m.insert("oneOf"@, V::Arr(m["oneOf"@]->Arr_0.skip(1))) } else { m }
}
pub open spec fn units_wf(v: V) -> bool { match v { V::Obj(m) => enum_wf(m) && (first_of(m) matches Some(f) ==> enum_wf(f)), _ => true } }
pub open spec fn with_units(v: V) -> V {
  match v {
    V::Obj(m) => match units(m) {
      Some(u) => { let n = no_units(m); match mget(n, "oneOf"@) { None => V::Obj(n.insert("oneOf"@, V::Arr(unit_objs(u)))), Some(V::Arr(a)) => V::Obj(n.insert("oneOf"@, V::Arr(a + unit_objs(u)))), Some(_) => V::Obj(n) } }
      None => v,
    },
    _ => v,
  }
}
pub broadcast proof fn lemma_same_insert(m: VM, k: Str, v: V) requires m.dom().contains(k), m[k] == v ensures #[trigger] m.insert(k, v) == m { assert(m.insert(k, v) =~= m); }
pub broadcast proof fn lemma_av_update(s: Seq<Value>, i: int, x: Value) requires 0 <= i < s.len() ensures #[trigger] av(s.update(i, x)) == av(s).update(i, vv(x)) { assert(av(s.update(i, x)) =~= av(s).update(i, vv(x))); }
pub broadcast proof fn lemma_same_update(s: Seq<V>, i: int, x: V) requires 0 <= i < s.len(), s[i] == x ensures #[trigger] s.update(i, x) == s { assert(s.update(i, x) =~= s); }
pub broadcast proof fn lemma_av_remove0(s: Seq<Value>, i: int, x: Value) requires i == 0, s.len() > 0 ensures #[trigger] av(s.update(i, x).remove(i)) == av(s).skip(1) { assert(av(s.update(i, x).remove(i)) =~= av(s).skip(1)); }
pub broadcast group group_same { lemma_same_insert, lemma_av_update, lemma_same_update, lemma_av_remove0 }
@fn _private/mod.rs json_schema_for_flatten / remove_unit_variants
@as remove_unit_variants
@spec
  requires is_schema(sv(*old(schema)))
  ensures is_schema(sv(*final(schema))),
    units_wf(sv(*old(schema))) ==> match sv(*old(schema)) {
      V::Obj(m) => same(sv(*final(schema)), V::Obj(no_units(m))) && match units(m) { Some(u) => ret matches Some(r) && av(r@) == u, None => ret is None },
      _ => sv(*final(schema)) == sv(*old(schema)) && ret is None,
    }
@start
broadcast use group_same;
@verus
// ---- an optional flattened field
/// what merging {"anyOf": w} into a schema object gives
pub open spec fn flat_any(m: VM, w: V) -> VM {
  let n = if m.dom().contains("additionalProperties"@) { m.remove("additionalProperties"@).insert("unevaluatedProperties"@, m["additionalProperties"@]) } else { m };
  if !n.dom().contains("anyOf"@) { n.insert("anyOf"@, w) }
  else { n.remove("anyOf"@).insert("allOf"@, V::Arr(allof_base(n) + two(obj1("anyOf"@, n["anyOf"@]), obj1("anyOf"@, w)))) }
}
pub proof fn lemma_flat_any(m: VM, w: V, r: V)
  requires flat_ok(V::Obj(m), obj1("anyOf"@, w), r), allof_wf(m)
  ensures r == V::Obj(flat_any(m, w))
{
  lemma_kwid();
  let ao = "anyOf"@;
  let m2 = obj1(ao, w)->Obj_0;
  let n = norm(m, m2);
  assert(cis(m2));
  assert(norm(m2, n) == m2);
  let ks = choose|ks: Seq<Str>| #[trigger] merged(n, m2, ks, r->Obj_0);
  let x = r->Obj_0;
  assert(merged(n, m2, ks, x));
  assert(ks.to_set().contains(ao));
  assert forall|i: int| 0 <= i < ks.len() implies ks[i] == ao by { assert(ks.contains(ks[i])); assert(ks.to_set().contains(ks[i])); }
  if ks.len() > 1 { assert(ks[0] == ks[1]); }
  assert(ks.len() == 1);
  assert(cat(n, m2, ks, 1) == cat(n, m2, ks, 0) + added(ks[0], n, m2));
  assert(cat(n, m2, ks, 0) + added(ks[0], n, m2) =~= added(ks[0], n, m2));
  assert(any_adds(n, m2, ks, 1) == (any_adds(n, m2, ks, 0) || adds(ks[0], n, m2)));
  let y = flat_any(m, w);
  assert(allof_base(n) + Seq::<V>::empty() =~= allof_base(n));
  assert forall|k: Str| #[trigger] mget(x, k) == mget(y, k) by { if k == "allOf"@ { } else if k == ao { } else { } }
  assert forall|k: Str| x.dom().contains(k) <==> y.dom().contains(k) by { assert(mget(x, k) == mget(y, k)); }
  assert forall|k: Str| x.dom().contains(k) implies x[k] == y[k] by { assert(mget(x, k) == mget(y, k)); }
  assert(x =~= y);
}
pub open spec fn alt(k: Str, x: V) -> V { V::Arr(two(obj1(k, x), empty_obj())) }
pub open spec fn opt1(m: VM) -> VM {
  let n = m.remove("required"@);
  match mget(n, "anyOf"@) { Some(V::Arr(a)) => if a.contains(empty_obj()) { n } else { n.insert("anyOf"@, V::Arr(a.push(empty_obj()))) }, _ => n }
}
pub open spec fn opt2(m: VM, k: Str) -> VM { match mget(m, k) { Some(x) => flat_any(m.remove(k), alt(k, x)), None => m } }
/// nothing is required any more, and each of anyOf, allOf and oneOf admits {}
pub open spec fn opt(v: V) -> V { match v { V::Obj(m) => V::Obj(opt2(opt2(opt1(m), "allOf"@), "oneOf"@)), _ => v } }
pub open spec fn flat_schema(v: V, is_optional: bool) -> V { f_au(if is_optional { opt(with_units(v)) } else { with_units(v) }) }
// what "optional" means: {} is accepted
pub open spec fn anyof_ok(x: V) -> bool { x is Arr && x->Arr_0.contains(empty_obj()) }
pub open spec fn wrap_ok(x: V) -> bool { x is Obj && x->Obj_0.dom() =~= SMap::<Str, V>::empty().insert("anyOf"@, V::Null).dom() && anyof_ok(x->Obj_0["anyOf"@]) }
pub open spec fn opt_ok(m: VM) -> bool {
  &&& !m.dom().contains("required"@)
  &&& (m.dom().contains("anyOf"@) ==> anyof_ok(m["anyOf"@]))
  &&& (m.dom().contains("allOf"@) ==> m["allOf"@] is Arr && forall|i: int| 0 <= i < m["allOf"@]->Arr_0.len() ==> wrap_ok(#[trigger] m["allOf"@]->Arr_0[i]))
}
pub proof fn lemma_flat_any_ok(m: VM, k: Str, x: V)
  requires opt_ok(m) ensures opt_ok(flat_any(m, alt(k, x))), !m.dom().contains("oneOf"@) ==> !flat_any(m, alt(k, x)).dom().contains("oneOf"@)
{
  lemma_kwid();
  let w = alt(k, x);
  assert(w->Arr_0[1] == empty_obj()); assert(anyof_ok(w));
  let r = flat_any(m, w);
  if m.dom().contains("anyOf"@) {
    let t = two(obj1("anyOf"@, m["anyOf"@]), obj1("anyOf"@, w));
    assert(wrap_ok(t[0]) && wrap_ok(t[1]));
    let b = allof_base(m);
    assert forall|i: int| 0 <= i < r["allOf"@]->Arr_0.len() implies wrap_ok(#[trigger] r["allOf"@]->Arr_0[i]) by { if i < b.len() { assert((b + t)[i] == b[i]); assert(b == m["allOf"@]->Arr_0); } else { assert((b + t)[i] == t[i - b.len()]); } }
  }
}
pub proof fn lemma_empty_au() ensures f_au(empty_obj()) == empty_obj() {
  let e = SMap::<Str, V>::empty(); lemma_f_au(e); assert(l_au(e) =~= e); assert(isubs_m(e, cf_au()) =~= e);
}
pub proof fn lemma_anyof_au(x: V) requires anyof_ok(x) ensures anyof_ok(app_arr(x, cf_au())) {
  let a = x->Arr_0; lemma_empty_au();
  let i = choose|i: int| 0 <= i < a.len() && a[i] == empty_obj();
  assert(app_arr(x, cf_au())->Arr_0[i] == empty_obj());
}
pub proof fn lemma_au_ok(m: VM) requires opt_ok(m) ensures f_au(V::Obj(m)) is Obj, opt_ok(f_au(V::Obj(m))->Obj_0), !m.dom().contains("oneOf"@) ==> !f_au(V::Obj(m))->Obj_0.dom().contains("oneOf"@) {
  lemma_kwid(); lemma_f_au(m);
  let l = l_au(m); let r = isubs_m(l, cf_au());
  if m.dom().contains("anyOf"@) { lemma_anyof_au(m["anyOf"@]); assert(r["anyOf"@] == app_arr(m["anyOf"@], cf_au())); }
  if m.dom().contains("allOf"@) {
    let a = m["allOf"@]->Arr_0;
    assert(r["allOf"@] == app_arr(m["allOf"@], cf_au()));
    assert forall|i: int| 0 <= i < r["allOf"@]->Arr_0.len() implies wrap_ok(#[trigger] r["allOf"@]->Arr_0[i]) by {
      assert(wrap_ok(a[i]));
      let o = a[i]->Obj_0; lemma_f_au(o); lemma_anyof_au(o["anyOf"@]);
      assert(o.dom().contains("anyOf"@));
      assert(l_au(o) =~= o);
      let q = isubs_m(o, cf_au());
      assert(q["anyOf"@] == app_arr(o["anyOf"@], cf_au()));
      assert(r["allOf"@]->Arr_0[i] == f_au(a[i]));
    }
  }
}
/// an optional flattened field requires nothing, and every applicator in its schema admits the empty object
pub proof fn theorem_optional(m: VM)
  requires m.dom().contains("anyOf"@) ==> m["anyOf"@] is Arr
  ensures opt(V::Obj(m)) is Obj, f_au(opt(V::Obj(m))) is Obj, opt_ok(f_au(opt(V::Obj(m)))->Obj_0), !f_au(opt(V::Obj(m)))->Obj_0.dom().contains("oneOf"@)
{
  lemma_kwid();
  let m1 = opt1(m);
  if m1.dom().contains("anyOf"@) { let a = m["anyOf"@]->Arr_0; if !a.contains(empty_obj()) { assert(a.push(empty_obj())[a.len() as int] == empty_obj()); } assert(anyof_ok(m1["anyOf"@])); }
  let m2 = opt2(m1, "allOf"@);
  assert(opt_ok(m1.remove("allOf"@)));
  if m1.dom().contains("allOf"@) { lemma_flat_any_ok(m1.remove("allOf"@), "allOf"@, m1["allOf"@]); }
  assert(opt_ok(m2));
  assert(opt_ok(m2.remove("oneOf"@)));
  if m2.dom().contains("oneOf"@) { lemma_flat_any_ok(m2.remove("oneOf"@), "oneOf"@, m2["oneOf"@]); }
  lemma_au_ok(opt2(m2, "oneOf"@));
}
@fn _private/mod.rs json_schema_for_flatten / inner
@as inner
@nloops 1
@spec
  requires is_schema(sv(schema))
  ensures is_schema(sv(ret)), !forbids(sv(ret)), units_wf(sv(schema)) ==> same(sv(ret), flat_schema(sv(schema), is_optional))
@start
let ghost v0 = sv(schema);
let ghost a0 = match v0 { V::Obj(m) => match mget(no_units(m), "oneOf"@) { Some(V::Arr(a)) => a, _ => Seq::empty() }, _ => Seq::empty() };
proof {
  assert forall|v: V| !forbids(#[trigger] f_au(v)) by { theorem_open(v); }
  assert forall|v: V, o: V, r: V| #[trigger] flat_ok(v, o, r) && v is Obj && allof_wf(v->Obj_0) && o is Obj && o->Obj_0.dom() =~= SMap::<Str, V>::empty().insert("anyOf"@, V::Null).dom() implies r == V::Obj(flat_any(v->Obj_0, o->Obj_0["anyOf"@])) by {
    let w = o->Obj_0["anyOf"@];
    assert(o->Obj_0 =~= obj1("anyOf"@, w)->Obj_0); lemma_flat_any(v->Obj_0, w, r);
  }
}
@loop 0
  invariant it0.seq() == __q0, units_wf(v0) ==> av(one_of@) == a0 + unit_objs(qv(__q0).take(it0.index()))
@loopstart 0
let ghost b0 = av(one_of@);
let ghost u0 = unit_objs(qv(__q0).take(it0.index()));
proof {
  let i = it0.index();
  assert(qv(__q0).take(i + 1).drop_last() =~= qv(__q0).take(i));
  assert(qv(__q0).take(i + 1).last() == qv(__q0)[i]);
  assert forall|x: V| #[trigger] (a0 + u0).push(x) == a0 + u0.push(x) by { assert((a0 + u0).push(x) =~= a0 + u0.push(x)); }
}
@afterloop 0
proof { assert(qv(__q0).take(__q0.len() as int) =~= qv(__q0)); }
