@@ schemars/src/transform.rs: C05..C11
@verus
// ---- schema positions (JSON Schema: keywords holding one schema / an array of schemas / a map of schemas)
pub open spec fn is_sub1(k: Str) -> bool {
  k == "not"@ || k == "if"@ || k == "then"@ || k == "else"@ || k == "contains"@ || k == "additionalProperties"@
  || k == "propertyNames"@ || k == "additionalItems"@
  || k == "unevaluatedProperties"@ || k == "unevaluatedItems"@ || k == "contentSchema"@
}
pub open spec fn is_subarr(k: Str) -> bool { k == "allOf"@ || k == "anyOf"@ || k == "oneOf"@ || k == "prefixItems"@ }
pub open spec fn is_subobj(k: Str) -> bool {
  k == "properties"@ || k == "patternProperties"@ || k == "$defs"@ || k == "definitions"@ || k == "dependentSchemas"@
}
pub open spec fn app(v: V, f: spec_fn(V) -> V) -> V { if is_schema(v) { f(v) } else { v } }
pub open spec fn app_arr(v: V, f: spec_fn(V) -> V) -> V { match v { V::Arr(a) => V::Arr(a.map_values(|x: V| app(x, f))), _ => v } }
pub open spec fn app_obj(v: V, f: spec_fn(V) -> V) -> V { match v { V::Obj(a) => V::Obj(a.map_values(|x: V| app(x, f))), _ => v } }
/// the value of keyword k after applying f to the schemas it holds
pub open spec fn sub_val(k: Str, v: V, f: spec_fn(V) -> V) -> V {
   if is_sub1(k) { app(v, f) }
   else if is_subarr(k) { app_arr(v, f) }
   else if k == "items"@ { if v is Arr { app_arr(v, f) } else { app(v, f) } }
   else if is_subobj(k) { app_obj(v, f) }
   else { v }
}
pub open spec fn subs_m(m: VM, f: spec_fn(V) -> V) -> VM { m.map_entries(|k: Str, x: V| sub_val(k, x, f)) }
/// f applied to every direct subschema, everything else unchanged
pub open spec fn subs(v: V, f: spec_fn(V) -> V) -> V { match v { V::Obj(m) => V::Obj(subs_m(m, f)), _ => v } }
pub open spec fn below(x: V, v: V) -> bool { decreases_to!(v => x) }
/// the schema x is held by keyword k whose value is v
pub open spec fn subpos(k: Str, v: V, x: V) -> bool {
  ||| (is_sub1(k) && x == v)
  ||| ((is_subarr(k) || k == "items"@) && v is Arr && v->Arr_0.contains(x))
  ||| (k == "items"@ && !(v is Arr) && x == v)
  ||| (is_subobj(k) && v is Obj && v->Obj_0.contains_value(x))
}
pub proof fn lemma_sub_val_cong(k: Str, v: V, f: spec_fn(V) -> V, g: spec_fn(V) -> V)
  requires forall|x: V| is_schema(x) && #[trigger] subpos(k, v, x) ==> f(x) == g(x)
  ensures sub_val(k, v, f) == sub_val(k, v, g)
{
  if is_sub1(k) { if is_schema(v) { assert(subpos(k, v, v)); } }
  else if is_subarr(k) || (k == "items"@ && v is Arr) {
    if v is Arr {
      let a = v->Arr_0;
      assert forall|i: int| 0 <= i < a.len() implies app(#[trigger] a[i], f) == app(a[i], g) by { assert(a.contains(a[i])); if is_schema(a[i]) { assert(subpos(k, v, a[i])); } }
      assert(a.map_values(|x: V| app(x, f)) =~= a.map_values(|x: V| app(x, g)));
    }
  } else if k == "items"@ { if is_schema(v) { assert(subpos(k, v, v)); } }
  else if is_subobj(k) {
    if v is Obj {
      let a = v->Obj_0;
      assert forall|i: Str| a.dom().contains(i) implies app(#[trigger] a[i], f) == app(a[i], g) by { assert(a.contains_value(a[i])); if is_schema(a[i]) { assert(subpos(k, v, a[i])); } }
      assert(a.map_values(|x: V| app(x, f)) =~= a.map_values(|x: V| app(x, g)));
    }
  }
}
pub proof fn lemma_subs_cong(m: VM, f: spec_fn(V) -> V, g: spec_fn(V) -> V)
  requires forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) ==> f(x) == g(x)
  ensures subs_m(m, f) == subs_m(m, g)
{
  assert forall|k: Str| m.dom().contains(k) implies #[trigger] sub_val(k, m[k], f) == sub_val(k, m[k], g) by { lemma_sub_val_cong(k, m[k], f, g); }
  assert(subs_m(m, f) =~= subs_m(m, g));
}
pub proof fn lemma_subpos_below(m: VM, k: Str, x: V)
  requires m.dom().contains(k), subpos(k, m[k], x)
  ensures below(x, V::Obj(m)), below(x, m[k]) || x == m[k]
{
  let v = V::Obj(m);
  assert(decreases_to!(v => v->Obj_0[k]));
  match m[k] {
    V::Arr(a) => { if x != m[k] { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; let w = m[k]; assert(decreases_to!(w => a)); assert(decreases_to!(a => a[i])); assert(decreases_to!(v => a[i])); } }
    V::Obj(a) => { if x != m[k] { let i = choose|i: Str| a.dom().contains(i) && a[i] == x; let w = m[k]; assert(decreases_to!(w => a[i])); assert(decreases_to!(v => a[i])); } }
    _ => {}
  }
}
pub broadcast proof fn lemma_subs_ext(m: VM, f: spec_fn(V) -> V, g: spec_fn(V) -> V)
  requires forall|x: V| #[trigger] f(x) == g(x)
  ensures #[trigger] subs_m(m, f) == #[trigger] subs_m(m, g)
{ lemma_subs_cong(m, f, g); }
pub broadcast proof fn lemma_app_arr(v: V, q: Seq<&mut Value>, f: spec_fn(V) -> V)
  requires v == V::Arr(cur(q)), forall|i: int| 0 <= i < q.len() ==> vv(*final(#[trigger] q[i])) == app(vv(*q[i]), f)
  ensures #[trigger] app_arr(v, f) == V::Arr(#[trigger] fin(q))
{ assert(fin(q) =~= cur(q).map_values(|x: V| app(x, f))); }
pub broadcast proof fn lemma_app_obj(old: VM, new: VM, f: spec_fn(V) -> V)
  requires old.dom() == #[trigger] new.dom(), forall|k: Str| old.dom().contains(k) ==> #[trigger] new[k] == app(old[k], f)
  ensures V::Obj(new) == #[trigger] app_obj(V::Obj(old), f)
{ assert(new =~= old.map_values(|x: V| app(x, f))); }
pub broadcast proof fn lemma_subs_m(old: VM, new: VM, f: spec_fn(V) -> V)
  requires old.dom() == #[trigger] new.dom(), forall|k: Str| old.dom().contains(k) ==> #[trigger] new[k] == sub_val(k, old[k], f)
  ensures V::Obj(new) == V::Obj(#[trigger] subs_m(old, f))
{ assert(new =~= subs_m(old, f)); }
pub broadcast group group_subs { lemma_app_arr, lemma_app_obj, lemma_subs_m }
pub open spec fn ins_opt(m: VM, k: Str, v: Option<V>) -> VM { match v { Some(x) => m.insert(k, x), None => m } }

// ---- C06
pub open spec fn f_rbs(skip: bool, v: V) -> V decreases v {
  match v {
    V::Bool(_) => V::Obj(as_obj(v)),
    V::Obj(m) => {
      let r = subs_m(m, |x: V| if below(x, v) { f_rbs(skip, x) } else { x });
      if skip && m.dom().contains("additionalProperties"@) && m["additionalProperties"@] is Bool { V::Obj(r.insert("additionalProperties"@, m["additionalProperties"@])) } else { V::Obj(r) }
    }
    _ => v,
  }
}
// ---- C07
pub open spec fn l_rrs(m: VM) -> VM {
  if m.len() > 1 && m.dom().contains("$ref"@) {
    let r = m["$ref"@];
    let m2 = m.remove("$ref"@);
    let one = V::Obj(SMap::<Str, V>::empty().insert("$ref"@, r));
    let all = if m2.dom().contains("allOf"@) { m2["allOf"@] } else { V::Arr(Seq::empty()) };
    match all { V::Arr(a) => m2.insert("allOf"@, V::Arr(a.push(one))), _ => m2 }
  } else { m }
}
// ---- C08
pub open spec fn l_sse(m: VM) -> VM {
  match mget(m, "examples"@) {
    Some(V::Arr(a)) => if a.len() > 0 { m.remove("examples"@).insert("example"@, a[0]) } else { m.remove("examples"@) },
    Some(_) => m.remove("examples"@),
    None => m,
  }
}
pub open spec fn l_rcv(m: VM) -> VM {
  match mget(m, "const"@) { Some(c) => m.remove("const"@).insert("enum"@, V::Arr(seq![c])), None => m }
}
pub open spec fn l_rpi(m: VM) -> VM {
  match mget(m, "prefixItems"@) {
    Some(p) => ins_opt(m.remove("prefixItems"@).insert("items"@, p), "additionalItems"@, mget(m, "items"@)),
    None => m,
  }
}
@for $F|$L <- f_rrs|l_rrs ;; f_sse|l_sse ;; f_rcv|l_rcv ;; f_rpi|l_rpi
/// after the subschemas, the object itself
pub open spec fn $F(v: V) -> V decreases v {
  match v { V::Obj(m) => V::Obj($L(subs_m(m, |x: V| if below(x, v) { $F(x) } else { x }))), _ => v }
}
pub open spec fn c$F() -> spec_fn(V) -> V { |x: V| $F(x) }
pub proof fn lemma_$F(m: VM) ensures $F(V::Obj(m)) == V::Obj($L(subs_m(m, c$F()))) {
  let v = V::Obj(m);
  let g = |x: V| if below(x, v) { $F(x) } else { x };
  let f = c$F();
  assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies f(x) == g(x) by { lemma_subpos_below(m, k, x); }
  lemma_subs_cong(m, f, g);
  broadcast use lemma_subs_ext;
}
@endfor

pub open spec fn cf_rbs(skip: bool) -> spec_fn(V) -> V { |x: V| f_rbs(skip, x) }
pub proof fn lemma_f_rbs(skip: bool, m: VM)
  ensures f_rbs(skip, V::Obj(m)) == ({ let r = subs_m(m, cf_rbs(skip));
     if skip && m.dom().contains("additionalProperties"@) && m["additionalProperties"@] is Bool { V::Obj(r.insert("additionalProperties"@, m["additionalProperties"@])) } else { V::Obj(r) } })
{
  let v = V::Obj(m);
  let g = |x: V| if below(x, v) { f_rbs(skip, x) } else { x };
  let f = cf_rbs(skip);
  assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies f(x) == g(x) by { lemma_subpos_below(m, k, x); }
  lemma_subs_cong(m, f, g);
  broadcast use lemma_subs_ext;
}
@@ ---- a transform supplied by the user: any pure function on schemas
@verus
/// p holds of every direct subschema
pub open spec fn all_subs(v: V, p: spec_fn(V) -> bool) -> bool { match v { V::Obj(m) => forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) ==> p(x), _ => true } }
/// ... of those under one keyword
pub open spec fn all_at(k: Str, v: V, p: spec_fn(V) -> bool) -> bool { forall|x: V| is_schema(x) && #[trigger] subpos(k, v, x) ==> p(x) }
pub proof fn lemma_all_arr(k: Str, v: V, q: Seq<&mut Value>, p: spec_fn(V) -> bool)
  requires v == V::Arr(cur(q)), is_subarr(k) || k == "items"@, forall|i: int| 0 <= i < q.len() && is_schema(vv(*#[trigger] q[i])) ==> p(vv(*q[i]))
  ensures all_at(k, v, p)
{ lemma_kwid(); assert forall|x: V| is_schema(x) && #[trigger] subpos(k, v, x) implies p(x) by { let a = cur(q); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(vv(*q[i]) == x); } }
pub proof fn lemma_all_obj(k: Str, o: Map<String, Value>, q: Seq<&mut Value>, p: spec_fn(V) -> bool)
  requires is_subobj(k), q.len() == mkeys(o).len(), forall|i: int| 0 <= i < q.len() ==> vv(*#[trigger] q[i]) == mv(o)[mkeys(o)[i]],
    forall|i: int| 0 <= i < q.len() && is_schema(vv(*#[trigger] q[i])) ==> p(vv(*q[i]))
  ensures all_at(k, V::Obj(mv(o)), p)
{
  lemma_kwid();
  let m = mv(o);
  assert forall|x: V| is_schema(x) && #[trigger] subpos(k, V::Obj(m), x) implies p(x) by { let n = choose|n: Str| m.dom().contains(n) && m[n] == x; let i = midx(o, n); assert(mkeys(o)[i] == n); assert(vv(*q[i]) == x); }
}
pub proof fn lemma_all_cases(k: Str, v: V, p: spec_fn(V) -> bool)
  requires is_sub1(k) && is_schema(v) ==> p(v), k == "items"@ && !(v is Arr) && is_schema(v) ==> p(v),
    (is_subarr(k) || k == "items"@) && v is Arr ==> all_at(k, v, p), is_subobj(k) && v is Obj ==> all_at(k, v, p)
  ensures all_at(k, v, p)
{ lemma_kwid(); assert forall|x: V| is_schema(x) && #[trigger] subpos(k, v, x) implies p(x) by {} }
/// ... the loop over the entries having dealt with each keyword
pub proof fn lemma_all_subs(o: Map<String, Value>, q: Seq<(&String, &mut Value)>, p: spec_fn(V) -> bool)
  requires q.len() == mkeys(o).len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0@ == mkeys(o)[i] && vv(*q[i].1) == mv(o)[mkeys(o)[i]],
    forall|i: int| 0 <= i < q.len() ==> all_at((#[trigger] q[i]).0@, vv(*q[i].1), p)
  ensures all_subs(V::Obj(mv(o)), p)
{
  let m = mv(o);
  assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies p(x) by { let i = midx(o, k); assert(mkeys(o)[i] == k); assert(q[i].0@ == k); assert(all_at(k, m[k], p)); }
}
pub trait Transform {
  spec fn f(&self) -> spec_fn(V) -> V;
  /// what is known of the schemas on which it returned
  spec fn done(&self) -> spec_fn(V) -> bool;
  fn transform(&mut self, schema: &mut Schema)
    requires is_schema(sv(*old(schema)))
    ensures same(sv(*final(schema)), old(self).f()(sv(*old(schema)))), is_schema(sv(*final(schema))),
       final(self).f() == old(self).f(), final(self).done() == old(self).done(), (old(self).done())(sv(*old(schema)));
}
@fn transform.rs transform_subschemas
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(true)]
@nloops 4
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), subs(sv(*old(schema)), old(t).f())), final(t).f() == old(t).f(), final(t).done() == old(t).done(), all_subs(sv(*old(schema)), old(t).done()), is_schema(sv(*final(schema)))
@start
broadcast use group_subs;
let ghost f0 = t.f();
let ghost p0 = t.done();
let ghost v0 = sv(*schema);
let ghost m0 = obj_of(schema.0);
@loop 0
  invariant t.f() == f0, t.done() == p0, it0.seq() == __q0,
    forall|i: int| 0 <= i < it0.index() ==> vv(*final((#[trigger] __q0[i]).1)) == sub_val(__q0[i].0@, vv(*__q0[i].1), f0) && all_at(__q0[i].0@, vv(*__q0[i].1), p0)
@loopstart 0
broadcast use group_subs;
let ghost k0 = __q0[it0.index()].0@;
let ghost w0 = vv(*__q0[it0.index()].1);
let ghost g0 = obj_of(*__q0[it0.index()].1);
@loop 1
  invariant t.f() == f0, t.done() == p0, it1.seq() == __q1,
    forall|i: int| 0 <= i < it1.index() ==> vv(*final(#[trigger] __q1[i])) == app(vv(*__q1[i]), f0) && (is_schema(vv(*__q1[i])) ==> p0(vv(*__q1[i])))
@loop 2
  invariant t.f() == f0, t.done() == p0, it2.seq() == __q2,
    forall|i: int| 0 <= i < it2.index() ==> vv(*final(#[trigger] __q2[i])) == app(vv(*__q2[i]), f0) && (is_schema(vv(*__q2[i])) ==> p0(vv(*__q2[i])))
@loop 3
  invariant t.f() == f0, t.done() == p0, it3.seq() == __q3,
    forall|i: int| 0 <= i < it3.index() ==> vv(*final(#[trigger] __q3[i])) == app(vv(*__q3[i]), f0) && (is_schema(vv(*__q3[i])) ==> p0(vv(*__q3[i])))
@loopend 0
proof { lemma_all_cases(k0, w0, p0); }
@afterloop 1
proof { lemma_all_arr(k0, w0, __q1, p0); }
@afterloop 2
proof { lemma_all_arr(k0, w0, __q2, p0); }
@afterloop 3
proof { lemma_all_obj(k0, g0, __q3, p0); }
@afterloop 0
proof { lemma_all_subs(m0, __q0, p0); }
@verus
pub proof fn lemma_subs_m_remove(m: VM, f: spec_fn(V) -> V, k: Str)
  ensures subs_m(m.remove(k), f) == subs_m(m, f).remove(k)
{ assert(subs_m(m.remove(k), f) =~= subs_m(m, f).remove(k)); }
pub proof fn lemma_subs_m_insert(m: VM, f: spec_fn(V) -> V, k: Str, v: V)
  ensures subs_m(m.insert(k, v), f) == subs_m(m, f).insert(k, sub_val(k, v, f))
{ assert(subs_m(m.insert(k, v), f) =~= subs_m(m, f).insert(k, sub_val(k, v, f))); }
