@@ splitting and unescaping, and JSON Pointers (RFC 6901)
@verus
/// the texts between the separators
pub open spec fn joined(q: Seq<Str>, c: char) -> Str decreases q.len() { if q.len() == 0 { Seq::empty() } else { seq![c] + q[0] + joined(q.drop_first(), c) } }
pub open spec fn no_char(s: Str, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != c }
pub open spec fn txts(q: Seq<&str>) -> Seq<Str> { q.map_values(|x: &str| x@) }
#[verifier::external_body]
pub struct VSplit<'a> { it: std::str::Split<'a, char> }
impl<'a> VSplit<'a> {
  /// the texts still to come
  pub uninterp spec fn rest(self) -> Seq<&'a str>;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<&'a str>)
    ensures old(self).rest().len() > 0 ==> r.is_some() && r.unwrap()@ == txts(old(self).rest())[0] && txts(final(self).rest()) == txts(old(self).rest()).drop_first(),
      old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest()
  { self.it.next() }
}
impl<'a> VsIntoIter for VSplit<'a> {
  type Out = Vec<&'a str>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<&'a str>) ensures r@ == self.rest() { self.it.collect() }
}
pub open spec fn split_of(s: Str, c: char, q: Seq<Str>) -> bool {
  q.len() > 0 && s == q[0] + joined(q.drop_first(), c) && forall|i: int| 0 <= i < q.len() ==> no_char(#[trigger] q[i], c)
}
pub trait VStrExt2 {
  fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>);
  fn vs_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>);
  fn v_contains(&self, c: char) -> (r: bool);
  fn v_replace(&self, from: &str, to: &str) -> (r: String);
  fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&str>);
}
impl VStrExt2 for str {
  #[verifier::external_body]
  fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>) ensures split_of(self@, c, txts(r.rest())) { VSplit { it: self.split(c) } }
  #[verifier::external_body]
  fn vs_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>) ensures split_of(self@, c, txts(r@)) { self.split(c).collect() }
  #[verifier::external_body]
  fn v_replace(&self, from: &str, to: &str) -> (r: String) ensures from@.len() == 2 && to@.len() == 1 ==> r@ == rep2(self@, from@[0], from@[1], to@[0]) { self.replace(from, to) }
  #[verifier::external_body]
  fn v_contains(&self, c: char) -> (r: bool) ensures r == self@.contains(c) { self.contains(c) }
  #[verifier::external_body]
  fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&str>)
    ensures r.is_some() <==> (a <= b <= encode_utf8(self@).len() && valid_utf8(encode_utf8(self@).take(a as int)) && valid_utf8(encode_utf8(self@).take(b as int))),
      r matches Some(t) ==> encode_utf8(t@) == encode_utf8(self@).subrange(a as int, b as int)
  { self.get(a..b) }
}
/// std's str::replace for a two-character pattern
pub open spec fn rep2(s: Str, a: char, b: char, c: char) -> Str decreases s.len() {
  if s.len() >= 2 && s[0] == a && s[1] == b { seq![c] + rep2(s.skip(2), a, b, c) } else if s.len() > 0 { seq![s[0]] + rep2(s.skip(1), a, b, c) } else { Seq::empty() }
}
/// the key a JSON Pointer reference token stands for (RFC 6901, section 4)
pub open spec fn unesc(s: Str) -> Str { rep2(rep2(s, '~', '1', '/'), '~', '0', '~') }
// ---- JSON Pointer (RFC 6901)
pub uninterp spec fn arr_index(key: Str) -> Option<nat>;
pub open spec fn tok_end(p: Str) -> int decreases p.len() { if p.len() == 0 || p[0] == '/' { 0 } else { 1 + tok_end(p.skip(1)) } }
pub broadcast proof fn lemma_tok_end(p: Str) ensures 0 <= #[trigger] tok_end(p) <= p.len() decreases p.len() { if !(p.len() == 0 || p[0] == '/') { lemma_tok_end(p.skip(1)); } }
pub open spec fn child(v: V, key: Str) -> Option<V> {
  match v { V::Obj(m) => mget(m, key), V::Arr(a) => match arr_index(key) { Some(i) => if i < a.len() { Some(a[i as int]) } else { None }, None => None }, _ => None }
}
pub open spec fn set_child(v: V, key: Str, x: V) -> V {
  match v { V::Obj(m) => V::Obj(m.insert(key, x)), V::Arr(a) => match arr_index(key) { Some(i) => V::Arr(a.update(i as int, x)), None => v }, _ => v }
}
pub open spec fn ptr_key(p: Str) -> Str { unesc(p.skip(1).take(tok_end(p.skip(1)))) }
pub open spec fn ptr_rest(p: Str) -> Str { p.skip(1).skip(tok_end(p.skip(1))) }
/// the value a JSON Pointer designates
pub open spec fn ptr(v: V, p: Str) -> Option<V> decreases p.len() via ptr_dec {
  if p.len() == 0 { Some(v) } else if p[0] != '/' { None } else { match child(v, ptr_key(p)) { Some(c) => ptr(c, ptr_rest(p)), None => None } }
}
#[via_fn] proof fn ptr_dec(v: V, p: Str) { if p.len() > 0 { lemma_tok_end(p.skip(1)); } }
/// v with the value p designates replaced by x
pub open spec fn ptr_set(v: V, p: Str, x: V) -> V decreases p.len() via ptr_set_dec {
  if p.len() == 0 { x } else if p[0] != '/' { v } else { match child(v, ptr_key(p)) { Some(c) => set_child(v, ptr_key(p), ptr_set(c, ptr_rest(p), x)), None => v } }
}
#[via_fn] proof fn ptr_set_dec(v: V, p: Str, x: V) { if p.len() > 0 { lemma_tok_end(p.skip(1)); } }
pub trait VStrLike { spec fn txt(&self) -> Str; fn as_text(&self) -> &str; }
impl VStrLike for str { #[verifier::external_body] fn as_text(&self) -> &str { self.as_ref() } open spec fn txt(&self) -> Str { self@ } }
impl VStrLike for String { #[verifier::external_body] fn as_text(&self) -> &str { self.as_ref() } open spec fn txt(&self) -> Str { self@ } }
impl<'a> VStrLike for Cow<'a, str> { #[verifier::external_body] fn as_text(&self) -> &str { self.as_ref() } open spec fn txt(&self) -> Str { cowv(*self) } }
pub open spec fn ovr(x: Option<&Value>) -> Option<V> { match x { Some(v) => Some(vv(*v)), None => None } }
pub trait VPointer: Sized { 
  spec fn pv(&self) -> V;
  fn v_pointer<P: VStrLike + ?Sized>(&self, p: &P) -> (r: Option<&Value>) ensures ovr(r) == ptr(self.pv(), p.txt());
  fn v_pointer_mut<P: VStrLike + ?Sized>(&mut self, p: &P) -> (r: Option<&mut Value>)
    ensures match r { Some(x) => Some(vv(*x)) == ptr((*old(self)).pv(), p.txt()) && (*final(self)).pv() == ptr_set((*old(self)).pv(), p.txt(), vv(*final(x))), None => ptr((*old(self)).pv(), p.txt()).is_none() && (*final(self)).pv() == (*old(self)).pv() };
}
impl VPointer for Value {
  open spec fn pv(&self) -> V { vv(*self) }
  #[verifier::external_body]
  fn v_pointer<P: VStrLike + ?Sized>(&self, p: &P) -> (r: Option<&Value>) { self.pointer(p.as_text()) }
  #[verifier::external_body]
  fn v_pointer_mut<P: VStrLike + ?Sized>(&mut self, p: &P) -> (r: Option<&mut Value>) { self.pointer_mut(p.as_text()) }
}
/// what may stand at the beginning of a text
pub trait VPre { spec fn pre(&self, s: Str) -> bool; spec fn plen(&self) -> int; }
impl VPre for char { open spec fn pre(&self, s: Str) -> bool { s.len() > 0 && s[0] == *self } open spec fn plen(&self) -> int { 1 } }
impl VPre for &str { open spec fn pre(&self, s: Str) -> bool { self@.is_prefix_of(s) } open spec fn plen(&self) -> int { self@.len() as int } }
impl VPre for &String { open spec fn pre(&self, s: Str) -> bool { self@.is_prefix_of(s) } open spec fn plen(&self) -> int { self@.len() as int } }
pub trait VStrip { fn v_strip_prefix<P: VPre>(&self, c: P) -> (r: Option<&str>); fn v_strip_suffix(&self, c: char) -> (r: Option<&str>); }
impl VStrip for str {
  #[verifier::external_body]
  fn v_strip_suffix(&self, c: char) -> (r: Option<&str>) ensures r.is_some() <==> (self@.len() > 0 && self@.last() == c), r matches Some(x) ==> x@ == self@.drop_last() { self.strip_suffix(c) }
  #[verifier::external_body]
  fn v_strip_prefix<P: VPre>(&self, c: P) -> (r: Option<&str>) ensures r.is_some() <==> c.pre(self@), r matches Some(x) ==> x@ == self@.skip(c.plen()) { unimplemented!() } }
/// the texts between the occurrences of c
pub open spec fn spl(s: Str, c: char) -> Seq<Str> decreases s.len() {
  if s.len() == 0 { seq![Seq::<char>::empty()] } else { let r = spl(s.skip(1), c); if s[0] == c { seq![Seq::<char>::empty()] + r } else { seq![seq![s[0]] + r[0]] + r.skip(1) } }
}
pub proof fn lemma_spl_len(s: Str, c: char) ensures spl(s, c).len() > 0 decreases s.len() { if s.len() > 0 { lemma_spl_len(s.skip(1), c); } }
pub proof fn lemma_split_unique(s: Str, c: char, q: Seq<Str>) requires split_of(s, c, q) ensures q == spl(s, c) decreases s.len() {
  let t = q.drop_first();
  if s.len() == 0 {
    if t.len() > 0 { assert(joined(t, c).len() > 0); }
    assert(q =~= seq![Seq::<char>::empty()]);
  } else if q[0].len() == 0 {
    assert(t.len() > 0);
    assert(s[0] == c);
    assert(s.skip(1) =~= t[0] + joined(t.drop_first(), c));
    assert forall|i: int| 0 <= i < t.len() implies no_char(#[trigger] t[i], c) by { assert(no_char(q[i + 1], c)); }
    lemma_split_unique(s.skip(1), c, t);
    assert(q[0] =~= Seq::<char>::empty()); assert(q =~= seq![Seq::<char>::empty()] + t);
  } else {
    assert(s[0] == q[0][0]); assert(no_char(q[0], c));
    let q2 = seq![q[0].skip(1)] + t;
    assert(q2.drop_first() =~= t);
    assert(s.skip(1) =~= q2[0] + joined(q2.drop_first(), c));
    assert forall|i: int| 0 <= i < q2.len() implies no_char(#[trigger] q2[i], c) by { assert(no_char(q[i], c)); }
    lemma_split_unique(s.skip(1), c, q2);
    assert(q =~= seq![seq![s[0]] + q2[0]] + q2.skip(1)) by { assert(q[0] =~= seq![s[0]] + q2[0]); }
  }
}
pub proof fn lemma_rep2_id(s: Str, a: char, b: char, c: char) requires no_char(s, a) ensures rep2(s, a, b, c) == s decreases s.len() {
  if s.len() > 0 { lemma_rep2_id(s.skip(1), a, b, c); assert(rep2(s, a, b, c) =~= s); }
}
pub proof fn lemma_unesc_id(s: Str) requires !s.contains('~') ensures unesc(s) == s {
  assert(no_char(s, '~')) by { assert forall|i: int| 0 <= i < s.len() implies s[i] != '~' by { assert(s.contains(s[i])); } }
  lemma_rep2_id(s, '~', '1', '/'); lemma_rep2_id(s, '~', '0', '~');
}
