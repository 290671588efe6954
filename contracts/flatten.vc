@@ _private::flatten (C13)
@verus
impl VVecExtend for Vec<Value> {
  open spec fn ext(self, x: Value, now: Self) -> bool { now@ == self@.push(x) }
  fn v_extend1(&mut self, x: Value) { self.push(x); }
}
pub trait VVecExtend: Sized { spec fn ext(self, x: Value, now: Self) -> bool; fn v_extend1(&mut self, x: Value) ensures (*old(self)).ext(x, *final(self)); }
pub trait VMapExtend { fn v_extend1(&mut self, x: (String, Value)); }
impl VMapExtend for Map<String, Value> {
  fn v_extend1(&mut self, x: (String, Value)) ensures mv(*final(self)) == mv(*old(self)).insert(x.0@, vv(x.1)) { self.insert(x.0, x.1); }
}
/// the second map's entries win
pub open spec fn over(a: VM, b: VM) -> VM { a.union_prefer_right(b) }
pub open spec fn over_keys(a: VM, b: VM, ks: Seq<Str>, i: int) -> VM decreases i { if i <= 0 { a } else { over_keys(a, b, ks, i - 1).insert(ks[i - 1], b[ks[i - 1]]) } }
pub open spec fn done(ks: Seq<Str>, i: int, k: Str) -> bool { exists|j: int| 0 <= j < i && #[trigger] ks[j] == k }
pub proof fn lemma_done(ks: Seq<Str>, i: int) requires 0 <= i < ks.len() ensures forall|k: Str| #[trigger] done(ks, i + 1, k) <==> (done(ks, i, k) || k == ks[i]) {
  assert forall|k: Str| #[trigger] done(ks, i + 1, k) <==> (done(ks, i, k) || k == ks[i]) by {
    if done(ks, i, k) { let j = choose|j: int| 0 <= j < i && #[trigger] ks[j] == k; assert(ks[j] == k && 0 <= j < i + 1); }
    if k == ks[i] { assert(0 <= i < i + 1); }
    if done(ks, i + 1, k) { let j = choose|j: int| 0 <= j < i + 1 && #[trigger] ks[j] == k; if j < i { assert(ks[j] == k && 0 <= j < i); } }
  }
}
pub proof fn lemma_done_all(m: VM, ks: Seq<Str>) requires ks.to_set() == m.dom() ensures forall|k: Str| #[trigger] done(ks, ks.len() as int, k) <==> m.dom().contains(k) {
  assert forall|k: Str| #[trigger] done(ks, ks.len() as int, k) <==> m.dom().contains(k) by {
    assert(ks.to_set().contains(k) <==> ks.contains(k));
    if ks.contains(k) { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; assert(ks[j] == k); }
  }
}
pub proof fn lemma_over_keys(a: VM, b: VM, ks: Seq<Str>, i: int)
  requires 0 <= i <= ks.len()
  ensures forall|k: Str| #[trigger] mget(over_keys(a, b, ks, i), k) == (if done(ks, i, k) { Some(b[k]) } else { mget(a, k) })
  decreases i
{
  if i > 0 { lemma_over_keys(a, b, ks, i - 1); lemma_done(ks, i - 1);
    let p = over_keys(a, b, ks, i - 1);
    assert forall|k: Str| #[trigger] mget(over_keys(a, b, ks, i), k) == (if done(ks, i, k) { Some(b[k]) } else { mget(a, k) }) by {
      assert(mget(p, k) == (if done(ks, i - 1, k) { Some(b[k]) } else { mget(a, k) }));
      assert(done(ks, i, k) <==> (done(ks, i - 1, k) || k == ks[i - 1]));
    } }
}
pub broadcast proof fn lemma_over_all(a: VM, b: VM, m: Map<String, Value>, n: int)
  requires mv(m) == b, n == mkeys(m).len()
  ensures #[trigger] over_keys(a, b, mkeys(m), n) == over(a, b)
{
  let ks = mkeys(m);
  ax_mkeys(m);
  lemma_over_keys(a, b, ks, n); lemma_done_all(b, ks);
  let r = over_keys(a, b, ks, n);
  assert forall|k: Str| #[trigger] mget(r, k) == mget(over(a, b), k) by { assert(done(ks, n, k) <==> b.dom().contains(k)); }
  assert forall|k: Str| r.dom().contains(k) <==> over(a, b).dom().contains(k) by { assert(mget(r, k) == mget(over(a, b), k)); }
  assert forall|k: Str| r.dom().contains(k) implies r[k] == over(a, b)[k] by { assert(mget(r, k) == mget(over(a, b), k)); }
  assert(r =~= over(a, b));
}
pub open spec fn obj1(k: Str, v: V) -> V { V::Obj(SMap::<Str, V>::empty().insert(k, v)) }
/// merging the value of one keyword into a map
pub open spec fn fp(m: VM, k: Str, v: V) -> VM {
  if !m.dom().contains(k) { m.insert(k, v) }
  else if k == "required"@ || k == "allOf"@ { match (m[k], v) { (V::Arr(a), V::Arr(b)) => m.insert(k, V::Arr(a + b)), _ => m } }
  else if k == "properties"@ || k == "patternProperties"@ { match (m[k], v) { (V::Obj(a), V::Obj(b)) => m.insert(k, V::Obj(over(a, b))), _ => m } }
  else if k == "oneOf"@ || k == "anyOf"@ {
    let w = two(obj1(k, m[k]), obj1(k, v));
    let n = m.remove(k);
    if !n.dom().contains("allOf"@) { n.insert("allOf"@, V::Arr(w)) } else { match n["allOf"@] { V::Arr(a) => n.insert("allOf"@, V::Arr(a + w)), _ => n } }
  }
  else { m }
}
pub open spec fn norm(m1: VM, m2: VM) -> VM {
  if m1.dom().contains("additionalProperties"@) && (m2.dom().contains("unevaluatedProperties"@) || cis(m2)) { m1.remove("additionalProperties"@).insert("unevaluatedProperties"@, m1["additionalProperties"@]) } else { m1 }
}
pub open spec fn fpn(m1: VM, m2: VM, ks: Seq<Str>, i: int) -> VM decreases i { if i <= 0 { m1 } else { fp(fpn(m1, m2, ks, i - 1), ks[i - 1], m2[ks[i - 1]]) } }

// ---- what merging means, keyword by keyword
/// the merged value of a keyword other than allOf
pub open spec fn merged1(k: Str, a: Option<V>, b: V) -> Option<V> {
  match a {
    None => Some(b),
    Some(x) =>
      if k == "required"@ { match (x, b) { (V::Arr(p), V::Arr(q)) => Some(V::Arr(p + q)), _ => a } }
      else if k == "properties"@ || k == "patternProperties"@ { match (x, b) { (V::Obj(p), V::Obj(q)) => Some(V::Obj(over(p, q))), _ => a } }
      else if k == "oneOf"@ || k == "anyOf"@ { None }
      else { a }
  }
}
/// what keyword k of the second schema adds under allOf
pub open spec fn adds(k: Str, m1: VM, m2: VM) -> bool { m2.dom().contains(k) && (k == "allOf"@ || ((k == "oneOf"@ || k == "anyOf"@) && m1.dom().contains(k))) }
pub open spec fn added(k: Str, m1: VM, m2: VM) -> Seq<V> {
  if !adds(k, m1, m2) { Seq::empty() } else if k == "allOf"@ { match m2[k] { V::Arr(b) => b, _ => Seq::empty() } } else { two(obj1(k, m1[k]), obj1(k, m2[k])) }
}
pub open spec fn allof_base(m: VM) -> Seq<V> { match mget(m, "allOf"@) { Some(V::Arr(a)) => a, _ => Seq::empty() } }
pub open spec fn cat(m1: VM, m2: VM, ks: Seq<Str>, i: int) -> Seq<V> decreases i { if i <= 0 { Seq::empty() } else { cat(m1, m2, ks, i - 1) + added(ks[i - 1], m1, m2) } }
pub open spec fn any_adds(m1: VM, m2: VM, ks: Seq<Str>, i: int) -> bool decreases i { if i <= 0 { false } else { any_adds(m1, m2, ks, i - 1) || adds(ks[i - 1], m1, m2) } }
pub open spec fn allof_wf(m: VM) -> bool { m.dom().contains("allOf"@) ==> m["allOf"@] is Arr }
/// r is the merge of m1 and m2, the second schema's keywords having been taken in the order ks up to i
pub open spec fn merged_upto(m1: VM, m2: VM, ks: Seq<Str>, i: int, r: VM) -> bool {
  &&& forall|k: Str| k != "allOf"@ ==> #[trigger] mget(r, k) == (if done(ks, i, k) { merged1(k, mget(m1, k), m2[k]) } else { mget(m1, k) })
  &&& mget(r, "allOf"@) == (if m1.dom().contains("allOf"@) || any_adds(m1, m2, ks, i) { Some(V::Arr(allof_base(m1) + cat(m1, m2, ks, i))) } else { None })
}
/// the merge, for some order ks of the second schema's keywords
pub open spec fn merged(m1: VM, m2: VM, ks: Seq<Str>, r: VM) -> bool {
  &&& ks.no_duplicates() && ks.to_set() == m2.dom()
  &&& forall|k: Str| k != "allOf"@ ==> #[trigger] mget(r, k) == (if m2.dom().contains(k) { merged1(k, mget(m1, k), m2[k]) } else { mget(m1, k) })
  &&& mget(r, "allOf"@) == (if m1.dom().contains("allOf"@) || any_adds(m1, m2, ks, ks.len() as int) { Some(V::Arr(allof_base(m1) + cat(m1, m2, ks, ks.len() as int))) } else { None })
}
pub proof fn lemma_step(m1: VM, m2: VM, ks: Seq<Str>, i: int, r: VM)
  requires 0 <= i < ks.len(), ks.no_duplicates(), m2.dom().contains(ks[i]), allof_wf(m1), allof_wf(m2), merged_upto(m1, m2, ks, i, r)
  ensures merged_upto(m1, m2, ks, i + 1, fp(r, ks[i], m2[ks[i]]))
{
  lemma_kwid();
  let k0 = ks[i]; let v = m2[k0]; let s = fp(r, k0, v);
  assert(!done(ks, i, k0)) by { if done(ks, i, k0) { let j = choose|j: int| 0 <= j < i && #[trigger] ks[j] == k0; } }
  lemma_done(ks, i);
  let ao = "allOf"@;
  let base = allof_base(m1);
  if k0 != ao { assert(mget(r, k0) == mget(m1, k0)); }
  assert(cat(m1, m2, ks, i + 1) == cat(m1, m2, ks, i) + added(k0, m1, m2));
  if !adds(k0, m1, m2) { assert(cat(m1, m2, ks, i + 1) =~= cat(m1, m2, ks, i)); }
  assert(base + (cat(m1, m2, ks, i) + added(k0, m1, m2)) =~= (base + cat(m1, m2, ks, i)) + added(k0, m1, m2));
  if !(m1.dom().contains(ao) || any_adds(m1, m2, ks, i)) { lemma_no_adds(m1, m2, ks, i); assert(base + cat(m1, m2, ks, i + 1) =~= added(k0, m1, m2)); }
  assert forall|k: Str| k != ao implies #[trigger] mget(s, k) == (if done(ks, i + 1, k) { merged1(k, mget(m1, k), m2[k]) } else { mget(m1, k) }) by {
    if k != k0 { assert(mget(s, k) == mget(r, k)); }
  }
}
pub proof fn lemma_no_adds(m1: VM, m2: VM, ks: Seq<Str>, i: int) requires !any_adds(m1, m2, ks, i) ensures cat(m1, m2, ks, i) == Seq::<V>::empty() decreases i {
  if i > 0 { lemma_no_adds(m1, m2, ks, i - 1); assert(cat(m1, m2, ks, i) =~= Seq::<V>::empty()); }
}
pub proof fn lemma_fold(m1: VM, m2: VM, ks: Seq<Str>, i: int)
  requires 0 <= i <= ks.len(), ks.no_duplicates(), ks.to_set() == m2.dom(), allof_wf(m1), allof_wf(m2)
  ensures merged_upto(m1, m2, ks, i, fpn(m1, m2, ks, i))
  decreases i
{
  if i > 0 {
    lemma_fold(m1, m2, ks, i - 1);
    assert(ks.to_set().contains(ks[i - 1]));
    lemma_step(m1, m2, ks, i - 1, fpn(m1, m2, ks, i - 1));
  } else { assert(allof_base(m1) + cat(m1, m2, ks, 0) =~= allof_base(m1)); }
}
pub proof fn theorem_merged(m1: VM, m2: VM, ks: Seq<Str>)
  requires ks.no_duplicates(), ks.to_set() == m2.dom(), allof_wf(m1), allof_wf(m2)
  ensures merged(m1, m2, ks, fpn(m1, m2, ks, ks.len() as int))
{
  lemma_fold(m1, m2, ks, ks.len() as int);
  let r = fpn(m1, m2, ks, ks.len() as int);
  lemma_done_all(m2, ks);
  assert forall|k: Str| k != "allOf"@ implies #[trigger] mget(r, k) == (if m2.dom().contains(k) { merged1(k, mget(m1, k), m2[k]) } else { mget(m1, k) }) by { assert(done(ks, ks.len() as int, k) <==> m2.dom().contains(k)); }
}
/// consequences: nothing of either schema's allOf, oneOf or anyOf is lost, and the parent's allOf comes first
pub proof fn theorem_kept(m1: VM, m2: VM, ks: Seq<Str>, r: VM, k: Str)
  requires merged(m1, m2, ks, r), allof_wf(m1), allof_wf(m2), adds(k, m1, m2)
  ensures mget(r, "allOf"@) is Some, r["allOf"@] is Arr, allof_base(m1).is_prefix_of(r["allOf"@]->Arr_0),
    forall|x: V| added(k, m1, m2).contains(x) ==> r["allOf"@]->Arr_0.contains(x)
{
  assert(ks.to_set().contains(k));
  let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
  let n = ks.len() as int;
  lemma_cat(m1, m2, ks, i, n);
  let a = r["allOf"@]->Arr_0;
  let c = cat(m1, m2, ks, n);
  assert(a == allof_base(m1) + c);
  assert forall|x: V| added(k, m1, m2).contains(x) implies a.contains(x) by {
    assert(c.contains(x));
    let j = choose|j: int| 0 <= j < c.len() && c[j] == x;
    assert(a[allof_base(m1).len() + j] == x);
  }
}
pub proof fn lemma_cat(m1: VM, m2: VM, ks: Seq<Str>, i: int, n: int)
  requires 0 <= i < n <= ks.len(), adds(ks[i], m1, m2)
  ensures any_adds(m1, m2, ks, n), forall|x: V| added(ks[i], m1, m2).contains(x) ==> cat(m1, m2, ks, n).contains(x)
  decreases n
{
  let c = cat(m1, m2, ks, n - 1); let d = added(ks[n - 1], m1, m2);
  if i < n - 1 { lemma_cat(m1, m2, ks, i, n - 1); }
  assert forall|x: V| added(ks[i], m1, m2).contains(x) implies cat(m1, m2, ks, n).contains(x) by {
    assert(cat(m1, m2, ks, n) == c + d);
    if i < n - 1 { assert(c.contains(x)); let j = choose|j: int| 0 <= j < c.len() && c[j] == x; assert((c + d)[j] == x); }
    else { let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert((c + d)[c.len() + j] == x); }
  }
}
/// r is what flattening `other` into `v` may give
pub open spec fn flat_ok(v: V, other: V, r: V) -> bool {
  match other {
    V::Obj(m2) => {
      let n1 = norm(as_obj(v), m2); let n2 = norm(m2, n1);
      r is Obj && exists|ks: Seq<Str>| #[trigger] merged(n1, n2, ks, r->Obj_0)
    },
    V::Bool(true) => match v {
      V::Obj(m) => r == (if m.dom().contains("additionalProperties"@) || m.dom().contains("unevaluatedProperties"@) { v }
                         else { V::Obj(m.insert(if cis(m) { "unevaluatedProperties"@ } else { "additionalProperties"@ }, V::Bool(true))) }),
      _ => r == v,
    },
    _ => r == v,
  }
}
pub proof fn lemma_flat(v: V, w: V, ks: Seq<Str>, r: VM)
  requires w is Obj, merged(norm(as_obj(v), as_obj(w)), norm(as_obj(w), norm(as_obj(v), as_obj(w))), ks, r)
  ensures flat_ok(v, w, V::Obj(r))
{
  let rr = V::Obj(r); let m2 = w->Obj_0;
  assert(as_obj(w) == m2);
  assert(merged(norm(as_obj(v), m2), norm(m2, norm(as_obj(v), m2)), ks, rr->Obj_0));
}
@fn _private/mod.rs normalise_additional_unevaluated_properties
@spec
  ensures mv(*final(schema_obj1)) == norm(mv(*old(schema_obj1)), mv(*schema_obj2))
@fn _private/mod.rs flatten / flatten_property
@as flatten_property
@nloops 2
@spec
  ensures mv(*final(obj1)) == fp(mv(*old(obj1)), key@, vv(value2))
  decreases (if key@ == "oneOf"@ || key@ == "anyOf"@ { 1int } else { 0int })
@start
broadcast use lemma_over_all;
let ghost m0 = mv(*obj1);
let ghost k0 = key@;
@loop 0
  invariant it0.seq() == __q0, __q0 == a2@, av(a1@) == m0[k0]->Arr_0 + av(__q0.take(it0.index()))
@loopstart 0
proof { assert(__q0.take(it0.index() + 1) =~= __q0.take(it0.index()).push(__q0[it0.index()])); assert(m0[k0]->Arr_0 + av(__q0.take(it0.index())).push(vv(__e0)) =~= (m0[k0]->Arr_0 + av(__q0.take(it0.index()))).push(vv(__e0))); }
@afterloop 0
proof { assert(__q0.take(__q0.len() as int) =~= __q0); }
@loop 1
  invariant it1.seq() == __q1, mv(*o1) == over_keys(m0[k0]->Obj_0, mv(o2), mkeys(o2), it1.index())
@fn _private/mod.rs flatten
@nloops 1
@spec
  requires is_schema(sv(*old(schema))), is_schema(sv(other))
  ensures is_schema(sv(*final(schema))),
    allof_wf(as_obj(sv(*old(schema)))) && allof_wf(as_obj(sv(other))) ==> flat_ok(sv(*old(schema)), sv(other), sv(*final(schema)))
@start
let ghost v0 = sv(*schema); let ghost w0 = sv(other);
let ghost n1 = norm(as_obj(v0), as_obj(w0)); let ghost n2 = norm(as_obj(w0), n1);
proof { assert(allof_wf(as_obj(v0)) && allof_wf(as_obj(w0)) ==> allof_wf(n1) && allof_wf(n2)); assert forall|ks: Seq<Str>| w0 is Obj && ks.no_duplicates() && ks.to_set() == n2.dom() && allof_wf(as_obj(v0)) && allof_wf(as_obj(w0)) implies #[trigger] merged(n1, n2, ks, fpn(n1, n2, ks, ks.len() as int)) by { theorem_merged(n1, n2, ks); } }
@loop 0
  invariant it0.seq() == __q0, mv(obj2) == n2, mv(*obj1) == fpn(n1, n2, mkeys(obj2), it0.index())
@afterloop 0
proof { ax_mkeys(obj2); assert(__q0.len() == mkeys(obj2).len()); assert(mv(*obj1) == fpn(n1, n2, mkeys(obj2), mkeys(obj2).len() as int)); if allof_wf(as_obj(v0)) && allof_wf(as_obj(w0)) { lemma_flat(v0, w0, mkeys(obj2), mv(*obj1)); } }
