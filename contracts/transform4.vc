@@ ReplaceUnevaluatedProperties (C10)
@type transform.rs ReplaceUnevaluatedProperties
@type transform.rs GatherPropertyNames
@verus
impl GatherPropertyNames { 
  // #[derive(Default)]
  pub fn default() -> (r: Self) ensures bset(r.0) == ISet::<Str>::empty() { GatherPropertyNames(v_new_set()) }
}
pub open spec fn own_names(m: VM) -> ISet<Str> {
  match mget(m, "properties"@) { Some(V::Obj(p)) => ISet::new(|n: Str| p.dom().contains(n)), _ => ISet::empty() }
}
/// names of the properties declared by a schema and, transitively, by its in-place subschemas
pub open spec fn prop_names(v: V) -> ISet<Str> decreases v {
  match v {
    V::Obj(m) => ISet::new(|n: Str| own_names(m).contains(n)
      || exists|k: Str, x: V| m.dom().contains(k) && #[trigger] ipos(k, m[k], x) && below(x, v) && prop_names(x).contains(n)),
    _ => ISet::empty(),
  }
}
/// ... contributed by keyword k
pub open spec fn kw_names(k: Str, v: V) -> ISet<Str> { ISet::new(|n: Str| exists|x: V| #[trigger] ipos(k, v, x) && prop_names(x).contains(n)) }
pub open spec fn inplace_names(m: VM) -> ISet<Str> { ISet::new(|n: Str| exists|k: Str| m.dom().contains(k) && #[trigger] kw_names(k, m[k]).contains(n)) }
pub proof fn lemma_prop_names(m: VM)
  ensures prop_names(V::Obj(m)) == own_names(m).union(inplace_names(m))
{
  let v = V::Obj(m);
  assert forall|k: Str, x: V| m.dom().contains(k) && #[trigger] ipos(k, m[k], x) implies below(x, v) by { assert(subpos(k, m[k], x)); lemma_subpos_below(m, k, x); }
  assert forall|n: Str| prop_names(v).contains(n) implies own_names(m).union(inplace_names(m)).contains(n) by {
    if !own_names(m).contains(n) {
      let (k, x) = choose|k: Str, x: V| m.dom().contains(k) && #[trigger] ipos(k, m[k], x) && below(x, v) && prop_names(x).contains(n);
      assert(kw_names(k, m[k]).contains(n));
    }
  }
  assert forall|n: Str| own_names(m).union(inplace_names(m)).contains(n) implies prop_names(v).contains(n) by {
    if !own_names(m).contains(n) {
      let k = choose|k: Str| m.dom().contains(k) && #[trigger] kw_names(k, m[k]).contains(n);
      let x = choose|x: V| #[trigger] ipos(k, m[k], x) && prop_names(x).contains(n);
      assert(ipos(k, m[k], x) && below(x, v) && prop_names(x).contains(n));
    }
  }
  assert(prop_names(v) =~= own_names(m).union(inplace_names(m)));
}
/// r is p with every name missing from it added as `true`
pub open spec fn is_add(p: VM, names: ISet<Str>, r: VM) -> bool {
  forall|k: Str| (#[trigger] r.dom().contains(k) <==> (p.dom().contains(k) || names.contains(k))) && (r.dom().contains(k) ==> r[k] == (if p.dom().contains(k) { p[k] } else { V::Bool(true) }))
}
pub open spec fn add_names(p: VM, names: ISet<Str>) -> VM { choose|r: VM| #[trigger] is_add(p, names, r) }
pub broadcast proof fn lemma_add_names(p: VM, names: ISet<Str>, r: VM)
  requires #[trigger] is_add(p, names, r)
  ensures r == add_names(p, names)
{
  let c = add_names(p, names);
  assert(is_add(p, names, c));
  assert forall|k: Str| r.dom().contains(k) <==> c.dom().contains(k) by { }
  assert(r.dom() =~= c.dom());
  assert(r =~= c);
}
pub open spec fn l_rup(m: VM) -> VM {
  match mget(m, "unevaluatedProperties"@) {
    None => m,
    Some(up) => {
      let m1 = m.remove("unevaluatedProperties"@).insert("additionalProperties"@, up);
      let names = prop_names(V::Obj(m1));
      if names == ISet::<Str>::empty() { m1 } else {
        match mget(m1, "properties"@) {
          None => m1.insert("properties"@, V::Obj(add_names(SMap::empty(), names))),
          Some(V::Obj(p)) => m1.insert("properties"@, V::Obj(add_names(p, names))),
          Some(_) => m1,
        }
      }
    }
  }
}
@for $F|$L <- f_rup|l_rup
pub open spec fn $F(v: V) -> V decreases v {
  match v { V::Obj(m) => V::Obj($L(subs_m(m, |x: V| if below(x, v) { $F(x) } else { x }))), _ => v }
}
pub open spec fn c$F() -> spec_fn(V) -> V { |x: V| $F(x) }
pub proof fn lemma_$F(m: VM) ensures $F(V::Obj(m)) == V::Obj($L(subs_m(m, c$F()))) {
  let v = V::Obj(m);
  let g = |x: V| if below(x, v) { $F(x) } else { x };
  let f = c$F();
  assert forall|k: Str, x: V| m.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, m[k], x) implies f(x) == g(x) by { lemma_subpos_below(m, k, x); }
  lemma_subs_cong(m, f, g);
  broadcast use lemma_subs_ext;
}
@endfor
@for $X <- ReplaceUnevaluatedProperties
@fn transform.rs transform_subschemas
@as transform_subschemas__$X
@subst T=$X
@deps $X::transform
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(true)]
@nloops 4
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), subs(sv(*old(schema)), old(t).f())), *final(t) == *old(t)
@start
broadcast use group_subs;
let ghost f0 = t.f();
let ghost t0 = *t;
@loop 0
  invariant *t == t0, f0 == t.f(), it0.seq() == __q0,
    forall|i: int| 0 <= i < it0.index() ==> vv(*final((#[trigger] __q0[i]).1)) == sub_val(__q0[i].0@, vv(*__q0[i].1), f0)
@loopstart 0
broadcast use group_subs;
@loop 1
  invariant *t == t0, f0 == t.f(), it1.seq() == __q1,
    forall|i: int| 0 <= i < it1.index() ==> vv(*final(#[trigger] __q1[i])) == app(vv(*__q1[i]), f0)
@loop 2
  invariant *t == t0, f0 == t.f(), it2.seq() == __q2,
    forall|i: int| 0 <= i < it2.index() ==> vv(*final(#[trigger] __q2[i])) == app(vv(*__q2[i]), f0)
@loop 3
  invariant *t == t0, f0 == t.f(), it3.seq() == __q3,
    forall|i: int| 0 <= i < it3.index() ==> vv(*final(#[trigger] __q3[i])) == app(vv(*__q3[i]), f0)
@endfor
@verus
impl ReplaceUnevaluatedProperties { pub open spec fn f(&self) -> spec_fn(V) -> V { cf_rup() } }
/// names contributed by the first i entries / elements
pub open spec fn ent_names(q: Seq<(&String, &mut Value)>, i: int) -> ISet<Str> { ISet::new(|n: Str| exists|j: int| 0 <= j < i && kw_names((#[trigger] q[j]).0@, vv(*q[j].1)).contains(n)) }
pub open spec fn elt_names(q: Seq<&mut Value>, i: int) -> ISet<Str> { ISet::new(|n: Str| exists|j: int| 0 <= j < i && is_schema(vv(*#[trigger] q[j])) && prop_names(vv(*q[j])).contains(n)) }
pub broadcast proof fn lemma_elt_names(k: Str, v: V, q: Seq<&mut Value>)
  requires v == V::Arr(cur(q)), is_inplacearr(k)
  ensures #[trigger] kw_names(k, v) == #[trigger] elt_names(q, q.len() as int)
{
  lemma_kwid();
  let a = cur(q);
  assert forall|n: Str| kw_names(k, v).contains(n) implies elt_names(q, q.len() as int).contains(n) by {
    let x = choose|x: V| #[trigger] ipos(k, v, x) && prop_names(x).contains(n);
    let j = choose|j: int| 0 <= j < a.len() && a[j] == x;
    assert(is_schema(vv(*q[j])));
  }
  assert forall|n: Str| elt_names(q, q.len() as int).contains(n) implies kw_names(k, v).contains(n) by {
    let j = choose|j: int| 0 <= j < q.len() && is_schema(vv(*#[trigger] q[j])) && prop_names(vv(*q[j])).contains(n);
    assert(a[j] == vv(*q[j])); assert(a.contains(a[j]));
    assert(ipos(k, v, a[j]));
  }
  assert(kw_names(k, v) =~= elt_names(q, q.len() as int));
}
pub broadcast proof fn lemma_fin_cur(q: Seq<&mut Value>)
  requires forall|i: int| 0 <= i < q.len() ==> vv(*final(#[trigger] q[i])) == vv(*q[i])
  ensures #[trigger] fin(q) == cur(q)
{ assert(fin(q) =~= cur(q)); }
/// all entries together
pub proof fn lemma_ent_all(q: Seq<(&String, &mut Value)>, o: Map<String, Value>)
  requires q.len() == mkeys(o).len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0@ == mkeys(o)[i] && vv(*q[i].1) == mv(o)[mkeys(o)[i]]
  ensures ent_names(q, q.len() as int) == inplace_names(mv(o))
{
  let m = mv(o);
  assert forall|n: Str| ent_names(q, q.len() as int).contains(n) implies inplace_names(m).contains(n) by {
    let j = choose|j: int| 0 <= j < q.len() && kw_names((#[trigger] q[j]).0@, vv(*q[j].1)).contains(n);
    let k = mkeys(o)[j];
    ax_mkeys(o);
    assert(mkeys(o).contains(k)); assert(mkeys(o).to_set().contains(k));
    assert(kw_names(k, m[k]).contains(n));
  }
  assert forall|n: Str| inplace_names(m).contains(n) implies ent_names(q, q.len() as int).contains(n) by {
    let k = choose|k: Str| m.dom().contains(k) && #[trigger] kw_names(k, m[k]).contains(n);
    assert(q[midx(o, k)].0@ == k);
  }
  assert(ent_names(q, q.len() as int) =~= inplace_names(m));
}
pub proof fn lemma_elt_step(q: Seq<&mut Value>, i: int)
  requires 0 <= i < q.len()
  ensures elt_names(q, i + 1) == (if is_schema(vv(*q[i])) { elt_names(q, i).union(prop_names(vv(*q[i]))) } else { elt_names(q, i) })
{
  let r = if is_schema(vv(*q[i])) { elt_names(q, i).union(prop_names(vv(*q[i]))) } else { elt_names(q, i) };
  assert forall|n: Str| r.contains(n) implies elt_names(q, i + 1).contains(n) by { if elt_names(q, i).contains(n) { } else { assert(is_schema(vv(*q[i]))); } }
  assert(elt_names(q, i + 1) =~= r);
}
pub proof fn lemma_ent_step(q: Seq<(&String, &mut Value)>, i: int)
  requires 0 <= i < q.len()
  ensures ent_names(q, i + 1) == ent_names(q, i).union(kw_names(q[i].0@, vv(*q[i].1)))
{
  assert forall|n: Str| ent_names(q, i).union(kw_names(q[i].0@, vv(*q[i].1))).contains(n) implies ent_names(q, i + 1).contains(n) by { if ent_names(q, i).contains(n) {} else {} }
  assert(ent_names(q, i + 1) =~= ent_names(q, i).union(kw_names(q[i].0@, vv(*q[i].1))));
}
pub proof fn lemma_kw_names(k: Str, v: V)
  ensures
    is_inplace1(k) ==> kw_names(k, v) == (if is_schema(v) { prop_names(v) } else { ISet::<Str>::empty() }),
    !is_inplace1(k) && !is_inplacearr(k) ==> kw_names(k, v) == ISet::<Str>::empty(),
    is_inplacearr(k) && !(v is Arr) ==> kw_names(k, v) == ISet::<Str>::empty(),
{
  lemma_kwid();
  if is_inplace1(k) {
    if is_schema(v) { assert(ipos(k, v, v)); assert(kw_names(k, v) =~= prop_names(v)); } else { assert(kw_names(k, v) =~= ISet::empty()); }
  } else { if !(is_inplacearr(k) && v is Arr) { assert(kw_names(k, v) =~= ISet::empty()); } }
}
@fn transform.rs transform_immediate_subschemas
@as transform_immediate_subschemas__GatherPropertyNames
@subst T=GatherPropertyNames
@deps GatherPropertyNames::transform
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(true)]
@nloops 2
@spec
  requires is_schema(sv(*old(schema)))
  ensures sv(*final(schema)) == sv(*old(schema)),
    bset(final(t).0) == bset(old(t).0).union(match sv(*old(schema)) { V::Obj(m) => inplace_names(m), _ => ISet::empty() })
@start
let ghost n0 = bset(t.0);
let ghost v0 = sv(*schema);
let ghost m0 = obj_of(schema.0);
proof { assert(n0.union(ISet::empty()) =~= n0); }
@loop 0
  invariant it0.seq() == __q0, bset(t.0) == n0.union(ent_names(__q0, it0.index())),
    forall|i: int| 0 <= i < it0.index() ==> vv(*final((#[trigger] __q0[i]).1)) == vv(*__q0[i].1)
@loopstart 0
broadcast use {lemma_elt_names, lemma_fin_cur};
let ghost k0 = __q0[it0.index()].0@;
let ghost b0 = bset(t.0);
let ghost w0 = vv(*__q0[it0.index()].1);
proof { lemma_ent_step(__q0, it0.index()); lemma_kw_names(k0, w0); }
@loopend 0
assert(bset(t.0) =~= n0.union(ent_names(__q0, it0.index() + 1)));
@afterloop 0
proof { lemma_ent_all(__q0, m0); }
@end
proof { if v0 is Obj { assert(sv(*schema)->Obj_0 =~= v0->Obj_0); } }
@loop 1
  invariant it1.seq() == __q1, bset(t.0) == b0.union(elt_names(__q1, it1.index())),
    forall|i: int| 0 <= i < it1.index() ==> vv(*final(#[trigger] __q1[i])) == vv(*__q1[i])
@loopstart 1
proof { lemma_elt_step(__q1, it1.index()); }
@loopend 1
assert(bset(t.0) =~= b0.union(elt_names(__q1, it1.index() + 1)));
@verus
/// the texts among the first i keys
pub open spec fn keyset(q: Seq<&String>, i: int) -> ISet<Str> { ISet::new(|n: Str| exists|j: int| 0 <= j < i && #[trigger] q[j]@ == n) }
pub proof fn lemma_keyset_step(q: Seq<&String>, i: int)
  requires 0 <= i < q.len()
  ensures keyset(q, i + 1) == keyset(q, i).insert(q[i]@)
{ assert(keyset(q, i + 1) =~= keyset(q, i).insert(q[i]@)); }
pub broadcast proof fn lemma_keyset(q: Seq<&String>, p: Map<String, Value>)
  requires q.len() == #[trigger] mkeys(p).len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i])@ == mkeys(p)[i]
  ensures #[trigger] keyset(q, q.len() as int) == ISet::new(|n: Str| mv(p).dom().contains(n))
{
  let r = ISet::new(|n: Str| mv(p).dom().contains(n));
  assert forall|n: Str| r.contains(n) implies keyset(q, q.len() as int).contains(n) by { assert(q[midx(p, n)]@ == n); }
  assert forall|n: Str| keyset(q, q.len() as int).contains(n) implies r.contains(n) by {
    let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j]@ == n;
    ax_mkeys(p);
    assert(mkeys(p).contains(mkeys(p)[j])); assert(mkeys(p).to_set().contains(n));
  }
  assert(keyset(q, q.len() as int) =~= r);
}
pub proof fn lemma_strset_step(q: Seq<String>, i: int)
  requires 0 <= i < q.len()
  ensures strset(q, i + 1) == strset(q, i).insert(q[i]@)
{ assert(strset(q, i + 1) =~= strset(q, i).insert(q[i]@)); }
/// an entry that is neither `properties` nor an in-place applicator changes no names
pub broadcast proof fn lemma_names_insert(m: VM, k: Str, x: V)
  requires k != "properties"@, !is_inplace1(k), !is_inplacearr(k)
  ensures prop_names(V::Obj(#[trigger] m.insert(k, x))) == prop_names(V::Obj(m))
{
  let m2 = m.insert(k, x);
  lemma_prop_names(m); lemma_prop_names(m2);
  assert(own_names(m2) =~= own_names(m));
  assert forall|j: Str, n: Str| j == k implies !(#[trigger] kw_names(j, m2[j]).contains(n)) by { }
  assert forall|n: Str| inplace_names(m).contains(n) implies inplace_names(m2).contains(n) by {
    let j = choose|j: Str| m.dom().contains(j) && #[trigger] kw_names(j, m[j]).contains(n);
    assert(j != k);
    assert(m2[j] == m[j]);
  }
  assert forall|n: Str| inplace_names(m2).contains(n) implies inplace_names(m).contains(n) by {
    let j = choose|j: Str| m2.dom().contains(j) && #[trigger] kw_names(j, m2[j]).contains(n);
    assert(j != k);
    assert(m2[j] == m[j]);
  }
  assert(inplace_names(m2) =~= inplace_names(m));
}
@fn transform.rs impl Transform for GatherPropertyNames / transform
@kind method
@call .insert=>v_set_insert
@call transform_immediate_subschemas=>transform_immediate_subschemas__GatherPropertyNames
@attr #[verifier::exec_allows_no_decreases_clause]
@nloops 1
@spec
  requires is_schema(sv(*old(schema)))
  ensures sv(*final(schema)) == sv(*old(schema)), bset(final(self).0) == bset(old(self).0).union(prop_names(sv(*old(schema))))
@start
let ghost n0 = bset(self.0);
let ghost v0 = sv(*schema);
broadcast use lemma_keyset;
proof { if v0 is Obj { lemma_prop_names(v0->Obj_0); } }
@loop 0
  invariant it0.seq() == __q0, bset(self.0) == n0.union(keyset(__q0, it0.index()))
@loopstart 0
proof { lemma_keyset_step(__q0, it0.index()); }
@loopend 0
assert(bset(self.0) =~= n0.union(keyset(__q0, it0.index() + 1)));
@afterloop 0
assert(keyset(__q0, __q0.len() as int) == own_names(v0->Obj_0));
@end
assert(bset(self.0) =~= n0.union(prop_names(v0)));
@fn transform.rs impl Transform for ReplaceUnevaluatedProperties / transform
@kind method
@call transform_subschemas=>transform_subschemas__ReplaceUnevaluatedProperties
@call .is_empty=>v_is_empty
@attr #[verifier::exec_allows_no_decreases_clause]
@nloops 1
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), (old(self).f())(sv(*old(schema)))), is_schema(sv(*final(schema))), *final(self) == *old(self)
@start
let ghost v0 = sv(*schema);
broadcast use lemma_add_names, lemma_names_insert;
let ghost m1 = subs_m(v0->Obj_0, self.f()).remove("unevaluatedProperties"@).insert("additionalProperties"@, subs_m(v0->Obj_0, self.f())["unevaluatedProperties"@]);
let ghost p0 = match mget(m1, "properties"@) { Some(V::Obj(p)) => p, _ => SMap::empty() };
proof { if v0 is Obj { lemma_f_rup(v0->Obj_0); } assert(ISet::<Str>::empty().union(prop_names(V::Obj(m1))) =~= prop_names(V::Obj(m1))); let m2 = subs_m(v0->Obj_0, self.f()).remove("unevaluatedProperties"@); assert(m1 == m2.insert("additionalProperties"@, subs_m(v0->Obj_0, self.f())["unevaluatedProperties"@])); assert(ISet::<Str>::empty().union(prop_names(V::Obj(m2))) =~= prop_names(V::Obj(m2))); }
@loop 0
  invariant it0.seq() == __q0, is_add(p0, strset(__q0, it0.index()), mv(*properties))
@loopstart 0
proof { lemma_strset_step(__q0, it0.index()); }
