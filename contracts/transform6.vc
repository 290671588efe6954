@@ RecursiveTransform: the wrapped transform applied to a schema, then to every subschema of the result, to every depth
@verus
/// applying f with at most n levels of nesting
pub open spec fn frec(n: nat, f: spec_fn(V) -> V, v: V) -> V decreases n { if n == 0 { v } else { subs(f(v), |x: V| frec((n - 1) as nat, f, x)) } }
/// n levels are enough: below every schema f produced, (n - 1) are
pub open spec fn settled(n: nat, f: spec_fn(V) -> V, v: V) -> bool decreases n { n > 0 && all_subs(f(v), |x: V| settled((n - 1) as nat, f, x)) }
/// the recursion ends
pub open spec fn ends(f: spec_fn(V) -> V, v: V) -> bool { exists|n: nat| #[trigger] settled(n, f, v) }
pub open spec fn f_rec(f: spec_fn(V) -> V, v: V) -> V { frec(choose|n: nat| #[trigger] settled(n, f, v), f, v) }
pub open spec fn c_rec(f: spec_fn(V) -> V) -> spec_fn(V) -> V { |x: V| f_rec(f, x) }
pub open spec fn c_ends(f: spec_fn(V) -> V) -> spec_fn(V) -> bool { |x: V| ends(f, x) }
pub proof fn lemma_subs_eq(v: V, f: spec_fn(V) -> V, g: spec_fn(V) -> V)
  requires all_subs(v, |x: V| f(x) == g(x))
  ensures subs(v, f) == subs(v, g)
{ if v is Obj { let m = v->Obj_0; assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies f(x) == g(x) by { let p = |x: V| f(x) == g(x); assert(p(x)); } lemma_subs_cong(m, f, g); } }
pub open spec fn c_frec(n: nat, f: spec_fn(V) -> V) -> spec_fn(V) -> V { |x: V| frec(n, f, x) }
pub proof fn lemma_unfold(n: nat, f: spec_fn(V) -> V, v: V)
  requires n > 0
  ensures frec(n, f, v) == subs(f(v), c_frec((n - 1) as nat, f))
{
  let a = |x: V| frec((n - 1) as nat, f, x);
  assert forall|x: V| #[trigger] a(x) == c_frec((n - 1) as nat, f)(x) by {}
  broadcast use lemma_subs_ext;
}
/// more levels change nothing
pub proof fn lemma_more(n: nat, d: nat, f: spec_fn(V) -> V, v: V)
  requires settled(n, f, v)
  ensures settled(n + d, f, v), frec(n + d, f, v) == frec(n, f, v)
  decreases n
{
  let w = f(v);
  lemma_unfold(n, f, v);
  lemma_unfold(n + d, f, v);
  let a = c_frec((n - 1) as nat, f);
  let b = c_frec((n + d - 1) as nat, f);
  let p = |x: V| settled((n - 1) as nat, f, x);
  let q = |x: V| settled((n + d - 1) as nat, f, x);
  let e = |x: V| a(x) == b(x);
  if w is Obj {
    let m = w->Obj_0;
    assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies q(x) && e(x) by { assert(p(x)); lemma_more((n - 1) as nat, d, f, x); assert((n - 1) as nat + d == (n + d - 1) as nat); }
  }
  assert(all_subs(w, q));
  assert(all_subs(w, e));
  lemma_subs_eq(w, a, b);
}
pub proof fn lemma_any(n: nat, f: spec_fn(V) -> V, v: V)
  requires settled(n, f, v)
  ensures f_rec(f, v) == frec(n, f, v), ends(f, v)
{
  let m = choose|m: nat| #[trigger] settled(m, f, v);
  if m <= n { lemma_more(m, (n - m) as nat, f, v); } else { lemma_more(n, (m - n) as nat, f, v); }
}
/// one bound for finitely many schemas
pub proof fn lemma_bound(s: Set<V>, f: spec_fn(V) -> V) -> (n: nat)
  requires forall|x: V| #[trigger] s.contains(x) && is_schema(x) ==> ends(f, x)
  ensures forall|x: V| #[trigger] s.contains(x) && is_schema(x) ==> settled(n, f, x)
  decreases s.len()
{
  if s.len() == 0 { assert(s =~= Set::<V>::empty()); 0 } else {
    let y = s.choose();
    assert(s.contains(y));
    let r = s.remove(y);
    assert forall|x: V| #[trigger] r.contains(x) && is_schema(x) implies ends(f, x) by { assert(s.contains(x)); }
    let a = lemma_bound(r, f);
    let b = if is_schema(y) { choose|n: nat| #[trigger] settled(n, f, y) } else { 0 };
    assert forall|x: V| #[trigger] s.contains(x) && is_schema(x) implies settled(a + b, f, x) by {
      if x == y { lemma_more(b, a, f, x); } else { assert(r.contains(x)); lemma_more(a, b, f, x); }
    }
    a + b
  }
}
pub open spec fn at_level(n: nat, f: spec_fn(V) -> V, k: Str, v: V) -> bool { all_at(k, v, |x: V| settled(n, f, x)) }
/// ... for the schemas under one keyword
pub proof fn lemma_bound_at(k: Str, v: V, f: spec_fn(V) -> V) -> (n: nat)
  requires all_at(k, v, c_ends(f))
  ensures at_level(n, f, k, v)
{
  let s: Set<V> = match v { V::Arr(a) => a.to_set().insert(v), V::Obj(m) => m.values().insert(v), _ => Set::empty().insert(v) };
  let t = s.filter(|x: V| subpos(k, v, x));
  assert forall|x: V| #[trigger] t.contains(x) && is_schema(x) implies ends(f, x) by { assert(subpos(k, v, x)); assert(c_ends(f)(x)); }
  let n = lemma_bound(t, f);
  let p = |x: V| settled(n, f, x);
  assert forall|x: V| is_schema(x) && #[trigger] subpos(k, v, x) implies p(x) by {
    match v {
      V::Arr(a) => { if x != v { assert(a.contains(x)); assert(a.to_set().contains(x)); } }
      V::Obj(m) => { if x != v { assert(m.contains_value(x)); assert(m.values().contains(x)); } }
      _ => {}
    }
    assert(s.contains(x)); assert(t.contains(x));
  }
  n
}
pub proof fn lemma_level_more(n: nat, d: nat, f: spec_fn(V) -> V, k: Str, v: V)
  requires at_level(n, f, k, v)
  ensures at_level(n + d, f, k, v)
{
  let p = |x: V| settled(n, f, x);
  let q = |x: V| settled(n + d, f, x);
  assert forall|x: V| is_schema(x) && #[trigger] subpos(k, v, x) implies q(x) by { assert(p(x)); lemma_more(n, d, f, x); }
}
/// ... for the schemas under finitely many keywords
pub proof fn lemma_bound_keys(s: Set<Str>, m: VM, f: spec_fn(V) -> V) -> (n: nat)
  requires forall|k: Str| #[trigger] s.contains(k) ==> all_at(k, m[k], c_ends(f))
  ensures forall|k: Str| #[trigger] s.contains(k) ==> at_level(n, f, k, m[k])
  decreases s.len()
{
  if s.len() == 0 { assert(s =~= Set::<Str>::empty()); 0 } else {
    let y = s.choose();
    assert(s.contains(y));
    let r = s.remove(y);
    assert forall|k: Str| #[trigger] r.contains(k) implies all_at(k, m[k], c_ends(f)) by { assert(s.contains(k)); }
    let a = lemma_bound_keys(r, m, f);
    let b = lemma_bound_at(y, m[y], f);
    assert forall|k: Str| #[trigger] s.contains(k) implies at_level(a + b, f, k, m[k]) by {
      if k == y { lemma_level_more(b, a, f, k, m[k]); } else { assert(r.contains(k)); lemma_level_more(a, b, f, k, m[k]); }
    }
    a + b
  }
}
/// if the recursion ends below f(v), it ends at v, and the result is f(v) with the recursion applied to its subschemas
pub proof fn lemma_rec_step(f: spec_fn(V) -> V, v: V)
  requires all_subs(f(v), c_ends(f))
  ensures ends(f, v), f_rec(f, v) == subs(f(v), c_rec(f))
{
  let w = f(v);
  let mut n: nat = 0;
  if w is Obj {
    let m = w->Obj_0;
    assert forall|k: Str| #[trigger] m.dom().contains(k) implies all_at(k, m[k], c_ends(f)) by {
      assert forall|x: V| is_schema(x) && #[trigger] subpos(k, m[k], x) implies c_ends(f)(x) by {}
    }
    n = lemma_bound_keys(m.dom(), m, f);
    let p = |x: V| settled(n, f, x);
    assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies p(x) by { assert(at_level(n, f, k, m[k])); assert(all_at(k, m[k], |x: V| settled(n, f, x))); }
  }
  let p = |x: V| settled(n, f, x);
  assert(all_subs(w, p));
  let p2 = |x: V| settled((n + 1 - 1) as nat, f, x);
  assert(p =~= p2) by { assert((n + 1 - 1) as nat == n); }
  assert(settled(n + 1, f, v));
  lemma_any(n + 1, f, v);
  lemma_unfold(n + 1, f, v);
  let a = c_frec((n + 1 - 1) as nat, f);
  let b = c_rec(f);
  let e = |x: V| a(x) == b(x);
  if w is Obj {
    let m = w->Obj_0;
    assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies e(x) by { assert(p(x)); lemma_any(n, f, x); }
  }
  assert(all_subs(w, e));
  lemma_subs_eq(w, a, b);
}
@type transform.rs RecursiveTransform
@verus
impl<T: Transform> RecursiveTransform<T> {
  pub open spec fn f(&self) -> spec_fn(V) -> V { c_rec(self.0.f()) }
  pub open spec fn done(&self) -> spec_fn(V) -> bool { c_ends(self.0.f()) }
}
@fn transform.rs transform_subschemas
@as transform_subschemas__RecursiveTransform
@sig fn transform_subschemas__RecursiveTransform<T: Transform>(t: &mut RecursiveTransform<T>, schema: &mut Schema)
@deps RecursiveTransform<T>::transform
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(true)]
@nloops 4
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), subs(sv(*old(schema)), old(t).f())), final(t).0.f() == old(t).0.f(), all_subs(sv(*old(schema)), old(t).done()), is_schema(sv(*final(schema)))
@start
broadcast use group_subs;
let ghost u0 = t.0.f();
let ghost f0 = t.f();
let ghost p0 = t.done();
let ghost v0 = sv(*schema);
let ghost m0 = obj_of(schema.0);
@loop 0
  invariant f0 == c_rec(u0), p0 == c_ends(u0), t.0.f() == u0, it0.seq() == __q0,
    forall|i: int| 0 <= i < it0.index() ==> vv(*final((#[trigger] __q0[i]).1)) == sub_val(__q0[i].0@, vv(*__q0[i].1), f0) && all_at(__q0[i].0@, vv(*__q0[i].1), p0)
@loopstart 0
broadcast use group_subs;
let ghost k0 = __q0[it0.index()].0@;
let ghost w0 = vv(*__q0[it0.index()].1);
let ghost g0 = obj_of(*__q0[it0.index()].1);
@loop 1
  invariant f0 == c_rec(u0), p0 == c_ends(u0), t.0.f() == u0, it1.seq() == __q1,
    forall|i: int| 0 <= i < it1.index() ==> vv(*final(#[trigger] __q1[i])) == app(vv(*__q1[i]), f0) && (is_schema(vv(*__q1[i])) ==> p0(vv(*__q1[i])))
@loop 2
  invariant f0 == c_rec(u0), p0 == c_ends(u0), t.0.f() == u0, it2.seq() == __q2,
    forall|i: int| 0 <= i < it2.index() ==> vv(*final(#[trigger] __q2[i])) == app(vv(*__q2[i]), f0) && (is_schema(vv(*__q2[i])) ==> p0(vv(*__q2[i])))
@loop 3
  invariant f0 == c_rec(u0), p0 == c_ends(u0), t.0.f() == u0, it3.seq() == __q3,
    forall|i: int| 0 <= i < it3.index() ==> vv(*final(#[trigger] __q3[i])) == app(vv(*__q3[i]), f0) && (is_schema(vv(*__q3[i])) ==> p0(vv(*__q3[i])))
@loopend 0
proof { lemma_all_cases(k0, w0, p0); }
@afterloop 1
proof { lemma_all_arr(k0, w0, __q1, p0); }
@afterloop 2
proof { lemma_all_arr(k0, w0, __q2, p0); }
@afterloop 3
proof { lemma_all_obj(k0, g0, __q3, p0); }
@afterloop 0
proof { lemma_all_subs(m0, __q0, p0); }
@fn transform.rs impl Transform for RecursiveTransform<T> / transform
@kind method
@call transform_subschemas=>transform_subschemas__RecursiveTransform
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
  requires is_schema(sv(*old(schema)))
  ensures is_schema(sv(*final(schema))), final(self).0.f() == old(self).0.f(),
    ends(old(self).0.f(), sv(*old(schema))), same(sv(*final(schema)), f_rec(old(self).0.f(), sv(*old(schema)))),
    same(sv(*final(schema)), subs((old(self).0.f())(sv(*old(schema))), c_rec(old(self).0.f())))
@start
let ghost u0 = self.0.f();
let ghost v0 = sv(*schema);
@end
proof { lemma_rec_step(u0, v0); }
