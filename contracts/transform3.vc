@@ AddNullable (C09)
@type transform.rs AddNullable
@verus
pub open spec fn is_null_ty(v: V) -> bool { v == V::Str("null"@) }
pub open spec fn only_null(ty: V) -> bool { match ty { V::Arr(a) => forall|i: int| 0 <= i < a.len() ==> is_null_ty(#[trigger] a[i]), _ => true } }
pub open spec fn non_null(a: Seq<V>) -> Seq<V> decreases a.len() {
  if a.len() == 0 { Seq::empty() } else if is_null_ty(a.last()) { non_null(a.drop_last()) } else { non_null(a.drop_last()).push(a.last()) }
}
/// the type keyword once null has been taken out of it
pub open spec fn without_null(ty: V) -> V { match ty { V::Arr(a) => if non_null(a).len() == 1 { non_null(a)[0] } else { V::Arr(non_null(a)) }, _ => ty } }
/// on the schema object itself: nullable is set exactly when its type admits null
pub open spec fn l_an(rn: bool, ac: bool, m: VM) -> VM {
  if !has_type_spec(V::Obj(m), "null"@) { m } else {
    let n = m.insert("nullable"@, V::Bool(true));
    if only_null(m["type"@]) {
      if ac { let c = n.insert("const"@, V::Null); if rn { c.remove("type"@) } else { c } }
      else if rn { n.insert("type"@, V::Arr(Seq::empty())) } else { n }
    } else if rn { n.insert("type"@, without_null(m["type"@])) } else { n }
  }
}
pub open spec fn f_an(rn: bool, ac: bool, v: V) -> V decreases v {
  match v { V::Obj(m) => V::Obj(subs_m(l_an(rn, ac, m), |x: V| if below(x, v) { f_an(rn, ac, x) } else { x })), _ => v }
}
pub open spec fn cf_an(rn: bool, ac: bool) -> spec_fn(V) -> V { |x: V| f_an(rn, ac, x) }
pub proof fn lemma_f_an(rn: bool, ac: bool, m: VM)
  ensures f_an(rn, ac, V::Obj(m)) == V::Obj(subs_m(l_an(rn, ac, m), cf_an(rn, ac)))
{
  lemma_kwid();
  let v = V::Obj(m);
  let g = |x: V| if below(x, v) { f_an(rn, ac, x) } else { x };
  let f = cf_an(rn, ac);
  let l = l_an(rn, ac, m);
  assert forall|k: Str, x: V| l.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, l[k], x) implies f(x) == g(x) by {
    assert(k != "type"@ && k != "const"@ && k != "nullable"@);
    lemma_subpos_below(m, k, x);
  }
  lemma_subs_cong(l, f, g);
  broadcast use lemma_subs_ext;
}
impl AddNullable { pub open spec fn f(&self) -> spec_fn(V) -> V { cf_an(self.remove_null_type, self.add_const_null) } }
/// masking by "is not null" filters
pub broadcast proof fn lemma_masked_non_null(s: Seq<Value>, mask: Seq<bool>)
  requires s.len() == mask.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] mask[i] == !is_null_ty(vv(s[i]))
  ensures av(#[trigger] masked(s, mask)) == non_null(av(s))
  decreases s.len()
{
  if s.len() > 0 {
    lemma_masked_ext(s.drop_last(), mask, mask.drop_last());
    lemma_masked_non_null(s.drop_last(), mask.drop_last());
    assert(av(s).drop_last() =~= av(s.drop_last()));
  } else { assert(av(s) =~= Seq::empty()); assert(av(masked(s, mask)) =~= Seq::empty()); }
}
pub proof fn lemma_masked_ext<T>(s: Seq<T>, a: Seq<bool>, b: Seq<bool>)
  requires a.len() >= s.len(), b.len() >= s.len(), forall|i: int| 0 <= i < s.len() ==> a[i] == b[i]
  ensures masked(s, a) == masked(s, b)
  decreases s.len()
{ if s.len() > 0 { lemma_masked_ext(s.drop_last(), a, b); } }
@for $X <- AddNullable
@fn transform.rs transform_subschemas
@as transform_subschemas__$X
@subst T=$X
@deps $X::transform
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(true)]
@nloops 4
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), subs(sv(*old(schema)), old(t).f())), *final(t) == *old(t)
@start
broadcast use group_subs;
let ghost f0 = t.f();
let ghost t0 = *t;
@loop 0
  invariant *t == t0, f0 == t.f(), it0.seq() == __q0,
    forall|i: int| 0 <= i < it0.index() ==> vv(*final((#[trigger] __q0[i]).1)) == sub_val(__q0[i].0@, vv(*__q0[i].1), f0)
@loopstart 0
broadcast use group_subs;
@loop 1
  invariant *t == t0, f0 == t.f(), it1.seq() == __q1,
    forall|i: int| 0 <= i < it1.index() ==> vv(*final(#[trigger] __q1[i])) == app(vv(*__q1[i]), f0)
@loop 2
  invariant *t == t0, f0 == t.f(), it2.seq() == __q2,
    forall|i: int| 0 <= i < it2.index() ==> vv(*final(#[trigger] __q2[i])) == app(vv(*__q2[i]), f0)
@loop 3
  invariant *t == t0, f0 == t.f(), it3.seq() == __q3,
    forall|i: int| 0 <= i < it3.index() ==> vv(*final(#[trigger] __q3[i])) == app(vv(*__q3[i]), f0)
@endfor
@fn transform.rs impl Transform for AddNullable / transform
@kind method
@call transform_subschemas=>transform_subschemas__AddNullable
@attr #[verifier::exec_allows_no_decreases_clause]
@nloops 2
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), (old(self).f())(sv(*old(schema)))), is_schema(sv(*final(schema))), *final(self) == *old(self)
@start
broadcast use lemma_masked_non_null;
let ghost v0 = sv(*schema);
proof { if v0 is Obj { lemma_f_an(self.remove_null_type, self.add_const_null, v0->Obj_0); } }
@loop 0
  invariant it0.seq() == __q0, __r0 == (forall|i: int| 0 <= i < it0.index() ==> is_null_ty(#[trigger] qv(__q0)[i]))
@loopstart 0
assert(qv(__q0)[it0.index()] == vv(*__e0));
@loop 1
  invariant it1.seq() == __q1, __mask1@.len() == it1.index(),
    forall|i: int| 0 <= i < it1.index() ==> #[trigger] __mask1@[i] == !is_null_ty(vv(*__q1[i]))
