@@ references resolve in the root document (C03, C04)
@verus
// ---- the two descriptions of a JSON Pointer path (split at '/', and token by token) agree
pub proof fn lemma_spl_front(x: Str)
  ensures spl(x, '/').len() > 0, spl(x, '/')[0] == x.take(tok_end(x)), 0 <= tok_end(x) <= x.len(),
    tok_end(x) < x.len() ==> x[tok_end(x)] == '/',
    spl(x, '/').skip(1) == segs(x.skip(tok_end(x)))
  decreases x.len()
{
  lemma_tok_end(x); lemma_spl_len(x, '/');
  if x.len() == 0 {
    assert(x.take(0) =~= Seq::<char>::empty()); assert(spl(x, '/').skip(1) =~= Seq::<Str>::empty());
  } else if x[0] == '/' {
    assert(x.take(0) =~= Seq::<char>::empty()); assert(x.skip(0) =~= x);
    assert(spl(x, '/').skip(1) =~= spl(x.skip(1), '/'));
  } else {
    let y = x.skip(1);
    lemma_spl_front(y); lemma_spl_len(y, '/');
    let t = tok_end(y);
    assert(tok_end(x) == 1 + t);
    assert(x.take(1 + t) =~= seq![x[0]] + y.take(t));
    assert(x.skip(1 + t) =~= y.skip(t));
    assert(spl(x, '/').skip(1) =~= spl(y, '/').skip(1));
  }
}
pub proof fn lemma_segs_front(p: Str)
  requires p.len() > 0, p[0] == '/'
  ensures segs(p).len() > 0, unesc(segs(p)[0]) == ptr_key(p), segs(p).skip(1) == segs(ptr_rest(p)), is_ptr(ptr_rest(p)), ptr_rest(p).len() < p.len()
{
  let x = p.skip(1); lemma_spl_front(x);
  let r = ptr_rest(p);
  if r.len() > 0 { assert(r[0] == x[tok_end(x)]); }
}
pub proof fn lemma_step_front(m: VM, q: Seq<Str>, i: int)
  requires 1 <= i <= q.len()
  ensures step(m, q, i) == step(sub_map(m, unesc(q[0])), q.skip(1), i - 1)
  decreases i
{
  if i > 1 { lemma_step_front(m, q, i - 1); assert(q.skip(1)[i - 2] == q[i - 1]); }
  else { assert(step(m, q, 0) == m); }
}
pub proof fn lemma_put_front(m: VM, q: Seq<Str>, i: int, x: VM)
  requires 1 <= i <= q.len()
  ensures put(m, q, i, x) == m.insert(unesc(q[0]), V::Obj(put(sub_map(m, unesc(q[0])), q.skip(1), i - 1, x)))
  decreases i
{
  let c = sub_map(m, unesc(q[0])); let r = q.skip(1);
  if i > 1 {
    let y = step(m, q, i - 1).insert(unesc(q[i - 1]), V::Obj(x));
    lemma_put_front(m, q, i - 1, y);
    lemma_step_front(m, q, i - 1);
    assert(r[i - 2] == q[i - 1]);
  } else { assert(step(m, q, 0) == m); assert(put(m, q, 0, m.insert(unesc(q[0]), V::Obj(x))) == m.insert(unesc(q[0]), V::Obj(x))); }
}
/// what was put at a path is found there
pub proof fn lemma_put_found(m: VM, p: Str, x: VM)
  requires is_ptr(p)
  ensures ptr(V::Obj(put_at(m, p, x)), p) == Some(V::Obj(x))
  decreases p.len()
{
  let q = segs(p);
  if p.len() > 0 {
    lemma_segs_front(p);
    let k = unesc(q[0]); let c = sub_map(m, k);
    lemma_put_front(m, q, q.len() as int, x);
    lemma_put_found(c, ptr_rest(p), x);
    assert(put_at(m, p, x) == m.insert(k, V::Obj(put_at(c, ptr_rest(p), x))));
  } else { assert(q =~= Seq::empty()); }
}
/// a member away from the path keeps its value
pub proof fn lemma_put_keeps(m: VM, p: Str, x: VM, k: Str)
  requires p.len() > 0, p[0] == '/', k != ptr_key(p)
  ensures mget(put_at(m, p, x), k) == mget(m, k)
{
  let q = segs(p); lemma_segs_front(p); lemma_put_front(m, q, q.len() as int, x);
}
pub proof fn lemma_tok_split(a: Str, b: Str)
  requires b.len() == 0 || b[0] == '/'
  ensures tok_end(a + b) == tok_end(a)
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); }
  else if a[0] != '/' { assert((a + b).skip(1) =~= a.skip(1) + b); lemma_tok_split(a.skip(1), b); }
}
pub proof fn lemma_ptr_cat(v: V, a: Str, b: Str)
  requires is_ptr(a), b.len() == 0 || b[0] == '/'
  ensures ptr(v, a + b) == match ptr(v, a) { Some(w) => ptr(w, b), None => None }
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); }
  else {
    let x = a.skip(1); let t = tok_end(x);
    lemma_tok_end(x); lemma_tok_split(x, b);
    assert((a + b).skip(1) =~= x + b);
    assert((x + b).take(t) =~= x.take(t));
    assert((x + b).skip(t) =~= x.skip(t) + b);
    assert(ptr_key(a + b) == ptr_key(a)); assert(ptr_rest(a + b) == ptr_rest(a) + b);
    lemma_segs_front(a);
    assert((a + b)[0] == '/');
    match child(v, ptr_key(a)) { Some(c) => { lemma_ptr_cat(c, ptr_rest(a), b); } None => { } }
  }
}
pub proof fn lemma_tesc_noslash(s: Str) ensures tok_end(tesc(s)) == tesc(s).len() decreases s.len() {
  if s.len() > 0 {
    let r = tesc(s.skip(1)); lemma_tesc_noslash(s.skip(1)); let u = tesc1(s[0]);
    let x = u + r; assert(tesc(s) == x); assert(x[0] == u[0] && x[0] != '/'); assert(tok_end(x) == 1 + tok_end(x.skip(1)));
    if u.len() == 2 { let y = x.skip(1); assert(y[0] == u[1]); assert(tok_end(y) == 1 + tok_end(y.skip(1))); assert((u + r).skip(1) =~= seq![u[1]] + r); assert((seq![u[1]] + r).skip(1) =~= r); }
    else { assert((u + r).skip(1) =~= r); }
  }
}
/// the pointer of the fragment "#path/e" where e encodes name
pub proof fn lemma_fragment(p: Str, e: Str, name: Str)
  requires no_char(p, '%'), enc(e, encode_utf8(name))
  ensures fragment(ref_txt(p, e)) == Some(p + (seq!['/'] + tesc(name)))
{
  reveal_strlit("#"); reveal_strlit("/");
  let sl = "/"@; assert(sl =~= seq!['/']);
  let s = p + (sl + e);
  assert("#"@ + s =~= ref_txt(p, e)); assert(ref_txt(p, e)[0] == '#'); assert(ref_txt(p, e).skip(1) =~= s);
  let pre = p + sl;
  assert(pre + e =~= s);
  encode_utf8_concat(pre, e);
  assert(no_char(pre, '%')); lemma_pct(pre);
  lemma_plain(encode_utf8(pre), encode_utf8(e));
  lemma_pd_enc(e, encode_utf8(name)); lemma_tesc_bytes(name);
  encode_utf8_concat(pre, tesc(name));
  lemma_dec(pre + tesc(name));
  assert(pre + tesc(name) =~= p + (sl + tesc(name)));
}
pub proof fn lemma_last_seg(d: VM, name: Str)
  ensures ptr(V::Obj(d), seq!['/'] + tesc(name)) == mget(d, name)
{
  let t = tesc(name); let b = seq!['/'] + t;
  assert(b.skip(1) =~= t); lemma_tesc_noslash(name); lemma_unesc(name);
  assert(t.take(t.len() as int) =~= t); assert(ptr_key(b) == name);
  let z = Seq::<char>::empty(); assert(ptr_rest(b) =~= z); let v = V::Obj(d);
  assert(b[0] == '/'); assert(ptr(v, b) == match child(v, name) { Some(c) => ptr(c, z), None => None });
  match mget(d, name) { Some(c) => { assert(ptr(c, z) == Some(c)); } None => { } }
}
/// a reference to a definition, looked up in a document that has the definitions at the configured path, is that definition
pub proof fn theorem_resolves(m: VM, path: Str, defs: VM, r: V, name: Str)
  requires is_def_ref(r, stripped(path), name), defs.dom().contains(name), reach(m, stripped(path), true), no_char(stripped(path), '%'), defs.dom().len() > 0
  ensures exists|t: Str| r == v_ref(t) && #[trigger] look_up(V::Obj(with_defs(m, path, defs)), t) == Some(defs[name])
{
  let p = stripped(path);
  let e = choose|e: Str| #[trigger] enc(e, encode_utf8(name)) && r == v_ref(ref_txt(p, e));
  let x = at(m, p).union_prefer_right(defs);
  let doc = V::Obj(put_at(m, p, x));
  let t = ref_txt(p, e);
  lemma_fragment(p, e, name);
  lemma_put_found(m, p, x);
  lemma_ptr_cat(doc, p, seq!['/'] + tesc(name));
  lemma_last_seg(x, name);
  assert(look_up(doc, t) == Some(defs[name]));
  assert(doc == V::Obj(with_defs(m, path, defs)) && r == v_ref(t));
}
/// every definition is in the document, and nothing away from the definitions path is touched
pub proof fn theorem_complete(m: VM, path: Str, defs: VM)
  requires reach(m, stripped(path), true), defs.dom().len() > 0
  ensures ptr(V::Obj(with_defs(m, path, defs)), stripped(path)) == Some(V::Obj(at(m, stripped(path)).union_prefer_right(defs))),
    stripped(path).len() > 0 ==> forall|k: Str| k != ptr_key(stripped(path)) ==> #[trigger] mget(with_defs(m, path, defs), k) == mget(m, k),
    with_defs(m, path, SMap::<Str, V>::empty()) == m
{
  let p = stripped(path); let x = at(m, p).union_prefer_right(defs);
  lemma_put_found(m, p, x);
  assert forall|k: Str| p.len() > 0 && k != ptr_key(p) implies #[trigger] mget(with_defs(m, path, defs), k) == mget(m, k) by { lemma_put_keeps(m, p, x, k); }
}
/// no two (id, contract) pairs ever share a name, and a name once given is kept
pub proof fn theorem_names(a: &SchemaGenerator, b: &SchemaGenerator, u: Uid, w: Uid)
  requires a.wf(), grows(a, b), a.names().dom().contains(u), b.names().dom().contains(w), u != w
  ensures b.names()[u] == a.names()[u], b.names()[u] != b.names()[w]
{ }
