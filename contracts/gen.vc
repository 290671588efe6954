@@ generate.rs: where definitions go (C04)
@verus
pub type JsonMap<K, T> = Map<K, T>;
/// the object map under key k, or an empty one
pub open spec fn sub_map(m: VM, k: Str) -> VM { match mget(m, k) { Some(V::Obj(c)) => c, _ => SMap::<Str, V>::empty() } }
/// nothing but an object stands in the way
pub open spec fn may_enter(m: VM, k: Str) -> bool { match mget(m, k) { Some(V::Obj(_)) => true, Some(_) => false, None => true } }
pub open spec fn step(m: VM, q: Seq<Str>, i: int) -> VM decreases i { if i <= 0 { m } else { sub_map(step(m, q, i - 1), unesc(q[i - 1])) } }
pub open spec fn clear(m: VM, q: Seq<Str>, n: int) -> bool { forall|i: int| 0 <= i < n ==> may_enter(#[trigger] step(m, q, i), unesc(q[i])) }
pub open spec fn present(m: VM, q: Seq<Str>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] step(m, q, i)).dom().contains(unesc(q[i])) }
/// m with the object at the path q[0..i] replaced by x
pub open spec fn put(m: VM, q: Seq<Str>, i: int, x: VM) -> VM decreases i {
  if i <= 0 { x } else { put(m, q, i - 1, step(m, q, i - 1).insert(unesc(q[i - 1]), V::Obj(x))) }
}
pub proof fn lemma_put_same(m: VM, q: Seq<Str>, i: int)
  requires 0 <= i <= q.len(), clear(m, q, i), present(m, q, i)
  ensures put(m, q, i, step(m, q, i)) == m
  decreases i
{
  if i > 0 {
    let p = step(m, q, i - 1); let k = unesc(q[i - 1]);
    assert(may_enter(p, k));
    assert(p.insert(k, V::Obj(step(m, q, i))) =~= p);
    lemma_put_same(m, q, i - 1);
  }
}
pub proof fn lemma_put_same2(m: VM, q: Seq<Str>, i: int)
  requires 0 <= i < q.len(), clear(m, q, i)
  ensures present(m, q, i) ==> put(m, q, i, step(m, q, i)) == m,
    step(m, q, i).dom().contains(unesc(q[i])) ==> step(m, q, i).insert(unesc(q[i]), step(m, q, i)[unesc(q[i])]) == step(m, q, i)
{ if present(m, q, i) { lemma_put_same(m, q, i); } let s = step(m, q, i); if s.dom().contains(unesc(q[i])) { assert(s.insert(unesc(q[i]), s[unesc(q[i])]) =~= s); } }
/// the member names a JSON Pointer goes through
pub open spec fn segs(s: Str) -> Seq<Str> { if s.len() == 0 { Seq::empty() } else { spl(s.skip(1), '/') } }
pub open spec fn is_ptr(s: Str) -> bool { s.len() > 0 ==> s[0] == '/' }
/// there is an object at p, or one can be made
pub open spec fn reach(m: VM, p: Str, create: bool) -> bool { is_ptr(p) && clear(m, segs(p), segs(p).len() as int) && (create || present(m, segs(p), segs(p).len() as int)) }
pub open spec fn at(m: VM, p: Str) -> VM { step(m, segs(p), segs(p).len() as int) }
pub open spec fn put_at(m: VM, p: Str, x: VM) -> VM { put(m, segs(p), segs(p).len() as int, x) }
@fn generate.rs json_pointer_mut
@nloops 1
@spec
  ensures match ret {
    Some(r) => reach(mv(*old(object)), pointer@, create_if_missing) && mv(*r) == at(mv(*old(object)), pointer@) && mv(*final(object)) == put_at(mv(*old(object)), pointer@, mv(*final(r))),
    None => mv(*final(object)) == mv(*old(object)) && !reach(mv(*old(object)), pointer@, create_if_missing),
  }
@start
let ghost m0 = mv(*object);
let ghost o0 = object;
let ghost sp = pointer@;
let ghost q = segs(pointer@);
proof { reveal_strlit("~1"); reveal_strlit("~0"); reveal_strlit("/"); reveal_strlit("~");
  assert forall|x: Str, t: Seq<Str>| #[trigger] split_of(x, '/', t) implies t == spl(x, '/') by { lemma_split_unique(x, '/', t); }
}
@loop 0
  invariant it0.seq() == __q0, txts(__q0) == q, is_ptr(sp), q == segs(sp),
    mv(*object) == step(m0, q, it0.index()), clear(m0, q, it0.index()), (create_if_missing && step(m0, q, it0.index()) == SMap::<Str, V>::empty()) || present(m0, q, it0.index()),
    mv(*final(o0)) == put(m0, q, it0.index(), mv(*final(object)))
@loopstart 0
proof {
  obeys_facts(); reveal_strlit("~1"); reveal_strlit("~0"); reveal_strlit("/"); reveal_strlit("~");
  if !q[it0.index()].contains('~') { lemma_unesc_id(q[it0.index()]); }
  lemma_put_same2(m0, q, it0.index());
  assert(q[it0.index()] == __q0[it0.index()]@);
}
