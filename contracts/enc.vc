@@ encoding.rs (C02)
@verus
pub open spec fn cowv(c: Cow<str>) -> Str { match c { Cow::Borrowed(s) => s@, Cow::Owned(o) => o@ } }
pub type Bytes = Seq<u8>;
// ---- percent-decoding
pub open spec fn hexv(b: u8) -> u8 { (if b <= 0x39 { b - 0x30 } else if b <= 0x46 { b - 0x41 + 10 } else { b - 0x61 + 10 }) as u8 }
pub open spec fn hex2(a: u8, b: u8) -> u8 { (hexv(a) * 16 + hexv(b)) as u8 }
/// every '%' followed by two hexadecimal digits replaced by that byte
pub open spec fn pd(b: Bytes) -> Bytes decreases b.len() {
  if b.len() == 0 { Seq::empty() }
  else if b[0] == 0x25 && b.len() >= 3 && is_hex(b[1]) && is_hex(b[2]) { seq![hex2(b[1], b[2])] + pd(b.skip(3)) }
  else { seq![b[0]] + pd(b.skip(1)) }
}
pub open spec fn no_pct(b: Bytes) -> bool { forall|i: int| 0 <= i < b.len() ==> b[i] != 0x25 }
pub proof fn lemma_plain(x: Bytes, rest: Bytes) requires no_pct(x) ensures pd(x + rest) == x + pd(rest) decreases x.len() {
  if x.len() > 0 { assert((x + rest).skip(1) =~= x.skip(1) + rest); lemma_plain(x.skip(1), rest); assert(x =~= seq![x[0]] + x.skip(1)); assert(pd(x + rest) =~= x + pd(rest)); }
  else { assert(x + rest =~= rest); assert(x + pd(rest) =~= pd(rest)); }
}
pub open spec fn pseg(x: Bytes) -> Bytes { if x.len() >= 2 && is_hex(x[0]) && is_hex(x[1]) { seq![hex2(x[0], x[1])] + x.skip(2) } else { seq![0x25u8] + x } }
pub proof fn lemma_seg(x: Bytes, rest: Bytes) requires no_pct(x), rest.len() > 0 ==> rest[0] == 0x25 ensures pd(seq![0x25u8] + x + rest) == pseg(x) + pd(rest) {
  let b = seq![0x25u8] + x + rest;
  if x.len() >= 2 && is_hex(x[0]) && is_hex(x[1]) {
    assert(b.skip(3) =~= x.skip(2) + rest); lemma_plain(x.skip(2), rest);
    assert(b[1] == x[0] && b[2] == x[1]);
    assert(pd(b) =~= pseg(x) + pd(rest));
  } else {
    assert(b.skip(1) =~= x + rest); lemma_plain(x, rest);
    if b.len() >= 3 && x.len() < 2 { if x.len() == 0 { assert(b[1] == rest[0]); } else { assert(b[2] == rest[0]); } }
    if x.len() >= 2 { assert(b[1] == x[0] && b[2] == x[1]); }
    assert(pd(b) =~= pseg(x) + pd(rest));
  }
}
pub trait VDefault2<'a> { fn v_unwrap_or_default(self) -> &'a str; }
impl<'a> VDefault2<'a> for Option<&'a str> {
  fn v_unwrap_or_default(self) -> (r: &'a str) ensures r@ == (match self { Some(s) => s@, None => ""@ }) { match self { Some(s) => s, None => "" } }
}
pub trait VBytes { spec fn bs(&self) -> Bytes; fn v_slice_from<'a>(&'a self, a: usize) -> (r: &'a [u8]) requires a <= self.bs().len() ensures r@ == self.bs().skip(a as int); }
impl VBytes for [u8] {
  open spec fn bs(&self) -> Bytes { self@ }
  #[verifier::external_body]
  fn v_slice_from<'a>(&'a self, a: usize) -> (r: &'a [u8]) { &self[a..] }
}
pub trait VByteBuf { fn v_extend1(&mut self, x: &u8); }
impl VByteBuf for Vec<u8> { fn v_extend1(&mut self, x: &u8) ensures final(self)@ == old(self)@.push(*x) { self.push(*x); } }
#[derive(Debug)]
pub struct VRadixError {}
#[verifier::external_body]
pub fn v_u8_from_str_radix(s: &str, radix: u32) -> (r: Result<u8, VRadixError>)
  ensures radix == 16 && encode_utf8(s@).len() == 2 ==> {
    let b = encode_utf8(s@);
    &&& r.is_ok() <==> (is_hex(b[1]) && (is_hex(b[0]) || b[0] == 0x2B))
    &&& r matches Ok(n) ==> n == (if is_hex(b[0]) { hex2(b[0], b[1]) } else { hexv(b[1]) })
  }
{ u8::from_str_radix(s, radix).map_err(|_| VRadixError {}) }
// ---- encoding
pub open spec fn hexc(n: u8) -> char { if n < 10 { (0x30 + n) as u8 as char } else { (0x41 + (n - 10)) as u8 as char } }
pub trait VFmtX { fn v_fmt_02X(self) -> String; }
impl VFmtX for u8 { 
  #[verifier::external_body]
  fn v_fmt_02X(self) -> (r: String) ensures r@ == seq![hexc(self / 16), hexc(self % 16)] { format!("{self:02X}") } }
pub trait VFmtS { spec fn fs(&self) -> Str; fn v_display(&self) -> (r: String) ensures r@ == self.fs(); }
impl<'a> VFmtS for &'a str {
  open spec fn fs(&self) -> Str { (*self)@ }
  #[verifier::external_body]
  fn v_display(&self) -> (r: String) { self.to_string() } }
pub trait VAppend { fn v_append_string(&mut self, s: String); }
impl VAppend for String {
  #[verifier::external_body]
  fn v_append_string(&mut self, s: String) ensures final(self)@ == old(self)@ + s@ { self.push_str(&s) } }
pub fn v_fmt_ok() -> (r: Result<(), VRadixError>) ensures r.is_ok() { Ok(()) }
/// the characters of a URI fragment (RFC 3986, section 3.5) other than '%'
pub open spec fn frag(c: char) -> bool {
  ('a' <= c <= 'z') || ('A' <= c <= 'Z') || ('0' <= c <= '9') || c == '-' || c == '.' || c == '_' || c == '~'
  || c == '!' || c == '$' || c == '&' || c == '\'' || c == '(' || c == ')' || c == '*' || c == '+' || c == ',' || c == ';' || c == '=' || c == ':' || c == '@' || c == '/' || c == '?'
}
/// u stands for the byte b in an encoded name
pub open spec fn unit(u: Str, b: u8) -> bool {
  if b == 0x7E { u.len() == 2 && u[0] == '~' && u[1] == '0' }
  else if b == 0x2F { u.len() == 2 && u[0] == '~' && u[1] == '1' }
  else { (b < 0x80 && frag(b as char) && u.len() == 1 && u[0] == b as char) || (u.len() == 3 && u[0] == '%' && u[1] <= '\x7F' && u[2] <= '\x7F' && is_hex(u[1] as u8) && is_hex(u[2] as u8) && hex2(u[1] as u8, u[2] as u8) == b) }
}
/// e is an encoding of the bytes bs
pub open spec fn enc(e: Str, bs: Bytes) -> bool decreases bs.len() {
  if bs.len() == 0 { e.len() == 0 } else { exists|k: int| 0 <= k <= e.len() && enc(#[trigger] e.take(k), bs.drop_last()) && unit(e.skip(k), bs.last()) }
}
pub proof fn lemma_unit(e: Str, bs: Bytes, u: Str, b: u8) requires enc(e, bs), unit(u, b) ensures enc(e + u, bs.push(b)) {
  let x = e + u; let k = e.len() as int;
  assert(x.take(k) =~= e); assert(x.skip(k) =~= u); assert(bs.push(b).drop_last() =~= bs);
}
pub proof fn lemma_hexc(n: u8) requires n < 16 ensures hexc(n) <= '\x7F', is_hex(hexc(n) as u8), hexv(hexc(n) as u8) == n { }
/// a text all of whose bytes are ASCII
pub proof fn lemma_ascii(s: Str) requires forall|i: int| 0 <= i < encode_utf8(s).len() ==> encode_utf8(s)[i] < 0x80
  ensures s.len() == encode_utf8(s).len(), forall|i: int| 0 <= i < s.len() ==> s[i] == #[trigger] encode_utf8(s)[i] as char decreases s.len()
{
  if s.len() > 0 {
    let b = encode_utf8(s); let e = encode_scalar(s[0] as u32); let r = s.drop_first();
    assert(b == e + encode_utf8(r));
    lemma_enc1(s[0]);
    if (s[0] as u32) >= 0x80 { lemma_enc_hi(s[0], 0); assert(b[0] >= 0x80); }
    lemma_enc_lo(s[0]);
    assert forall|i: int| 0 <= i < encode_utf8(r).len() implies encode_utf8(r)[i] < 0x80 by { assert(b[i + 1] == encode_utf8(r)[i]); }
    lemma_ascii(r);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] b[i] as char by { if i > 0 { assert(s[i] == r[i - 1]); assert(b[i] == encode_utf8(r)[i - 1]); } }
  } else { assert(encode_utf8(s) =~= Seq::<u8>::empty()); }
}
pub open spec fn safe(b: u8) -> bool { b < 0x80 && frag(b as char) && b != 0x7E && b != 0x2F }
pub proof fn lemma_safe_name(s: Str) requires forall|i: int| 0 <= i < encode_utf8(s).len() ==> safe(#[trigger] encode_utf8(s)[i]) ensures enc(s, encode_utf8(s)) {
  lemma_ascii(s);
  lemma_safe_to(s, encode_utf8(s), s.len() as int);
  assert(s.take(s.len() as int) =~= s); assert(encode_utf8(s).take(s.len() as int) =~= encode_utf8(s));
}
pub proof fn lemma_safe_to(s: Str, b: Bytes, n: int) requires s.len() == b.len(), 0 <= n <= b.len(), forall|i: int| 0 <= i < b.len() ==> s[i] == b[i] as char && safe(#[trigger] b[i]) ensures enc(s.take(n), b.take(n)) decreases n {
  if n > 0 {
    lemma_safe_to(s, b, n - 1);
    let u = s.subrange(n - 1, n);
    assert(s.take(n) =~= s.take(n - 1) + u); assert(b.take(n) =~= b.take(n - 1).push(b[n - 1]));
    assert(u[0] == s[n - 1]);
    lemma_unit(s.take(n - 1), b.take(n - 1), u, b[n - 1]);
  }
}
pub proof fn lemma_pct(s: Str) requires no_char(s, '%') ensures no_pct(encode_utf8(s)) {
  let b = encode_utf8(s);
  assert forall|i: int| 0 <= i < b.len() implies b[i] != 0x25 by { if b[i] == 0x25 { let j = lemma_cut(s, i); } }
}
pub proof fn lemma_pct1() ensures encode_utf8(seq!['%']) == seq![0x25u8] { lemma_enc1('%'); lemma_enc_lo('%'); }
pub broadcast proof fn lemma_split(s: Str, q: Seq<Str>)
  requires #[trigger] split_of(s, '%', q)
  ensures pd(encode_utf8(s)) == encode_utf8(q[0]) + pd(encode_utf8(joined(q.drop_first(), '%')))
{ encode_utf8_concat(q[0], joined(q.drop_first(), '%')); lemma_pct(q[0]); lemma_plain(encode_utf8(q[0]), encode_utf8(joined(q.drop_first(), '%'))); }
pub broadcast proof fn lemma_skip0(q: Seq<&str>, n: int) requires n == 0 ensures #[trigger] txts(q).skip(n) == txts(q) { assert(txts(q).skip(n) =~= txts(q)); }
pub proof fn lemma_joined(q: Seq<Str>)
  requires q.len() > 0, no_char(q[0], '%')
  ensures pd(encode_utf8(joined(q, '%'))) == pseg(encode_utf8(q[0])) + pd(encode_utf8(joined(q.drop_first(), '%')))
{
  let r = joined(q.drop_first(), '%');
  lemma_pct1(); lemma_pct(q[0]);
  encode_utf8_concat(seq!['%'], q[0]); encode_utf8_concat(seq!['%'] + q[0], r);
  if r.len() > 0 {
    let q1 = q.drop_first();
    let r1 = q1[0] + joined(q1.drop_first(), '%');
    assert(r =~= seq!['%'] + r1);
    encode_utf8_concat(seq!['%'], r1);
  } else { assert(encode_utf8(r) =~= Seq::<u8>::empty()); }
  lemma_seg(encode_utf8(q[0]), encode_utf8(r));
}
/// the first n bytes of an encoded text end at a character boundary when they are ASCII
pub proof fn lemma_two(s: Str)
  ensures valid_utf8(encode_utf8(s).take(0)), encode_utf8(s).len() >= 2 && encode_utf8(s)[0] < 0x80 && encode_utf8(s)[1] < 0x80 ==> valid_utf8(encode_utf8(s).take(2))
{
  let b = encode_utf8(s);
  lemma_dec(Seq::<char>::empty());
  assert(encode_utf8(Seq::<char>::empty()) =~= b.take(0));
  if b.len() >= 2 && b[0] < 0x80 && b[1] < 0x80 {
    let j = lemma_cut(s, 1);
    let t = s.take(j + 1);
    assert(t =~= s.take(j) + seq![s[j]]);
    encode_utf8_concat(s.take(j), seq![s[j]]);
    lemma_enc1(s[j]); lemma_enc_lo(s[j]);
    assert(encode_utf8(t) =~= b.take(2));
    lemma_dec(t);
  }
}
// ---- decoding gives the name back
pub open spec fn tesc1(c: char) -> Str { if c == '~' { seq!['~', '0'] } else if c == '/' { seq!['~', '1'] } else { seq![c] } }
pub open spec fn tesc(s: Str) -> Str decreases s.len() { if s.len() == 0 { Seq::empty() } else { tesc1(s[0]) + tesc(s.skip(1)) } }
pub open spec fn tescb1(c: u8) -> Bytes { if c == 0x7E { seq![0x7Eu8, 0x30u8] } else if c == 0x2F { seq![0x7Eu8, 0x31u8] } else { seq![c] } }
pub open spec fn tescb(s: Bytes) -> Bytes decreases s.len() { if s.len() == 0 { Seq::empty() } else { tescb1(s[0]) + tescb(s.skip(1)) } }
/// only characters of a URI fragment, '%' only before two hexadecimal digits, and no raw '/'
pub open spec fn legal(e: Str) -> bool {
  forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> e[i] != '/' && (frag(e[i]) || (e[i] == '%' && i + 2 < e.len() && hexch(e[i + 1]) && hexch(e[i + 2])))
}
pub open spec fn hexch(c: char) -> bool { c <= '\x7F' && is_hex(c as u8) }
pub proof fn lemma_front(e: Str, bs: Bytes) -> (k: int)
  requires enc(e, bs), bs.len() > 0
  ensures 0 <= k <= e.len(), unit(e.take(k), bs[0]), enc(e.skip(k), bs.skip(1))
  decreases bs.len()
{
  let k0 = choose|k: int| 0 <= k <= e.len() && enc(#[trigger] e.take(k), bs.drop_last()) && unit(e.skip(k), bs.last());
  if bs.len() == 1 {
    assert(k0 == 0) by { assert(e.take(k0).len() == 0); }
    assert(e.skip(0) =~= e.take(e.len() as int));
    e.len() as int
  } else {
    let k = lemma_front(e.take(k0), bs.drop_last());
    assert(e.take(k0).take(k) =~= e.take(k));
    lemma_unit(e.take(k0).skip(k), bs.drop_last().skip(1), e.skip(k0), bs.last());
    assert(e.take(k0).skip(k) + e.skip(k0) =~= e.skip(k));
    assert(bs.drop_last().skip(1).push(bs.last()) =~= bs.skip(1));
    k
  }
}
pub proof fn lemma_legal(e: Str, bs: Bytes) requires enc(e, bs) ensures legal(e) decreases bs.len() {
  if bs.len() > 0 {
    let k = lemma_front(e, bs);
    lemma_legal(e.skip(k), bs.skip(1));
    let u = e.take(k); let r = e.skip(k);
    assert forall|i: int| #![trigger e[i]] 0 <= i < e.len() implies e[i] != '/' && (frag(e[i]) || (e[i] == '%' && i + 2 < e.len() && hexch(e[i + 1]) && hexch(e[i + 2]))) by {
      if i < k { assert(e[i] == u[i]); if u[0] == '%' { assert(e[1] == u[1] && e[2] == u[2]); } }
      else { assert(e[i] == r[i - k]); if i + 2 < e.len() { assert(e[i + 1] == r[i - k + 1] && e[i + 2] == r[i - k + 2]); } }
    }
  }
}
pub proof fn lemma_ch(c: char) requires c <= '\x7F' ensures encode_utf8(seq![c]) == seq![c as u8] { lemma_enc1(c); lemma_enc_lo(c); }
pub proof fn lemma_unit_bytes(u: Str, b: u8) requires unit(u, b) ensures
  b == 0x7E ==> encode_utf8(u) == seq![0x7Eu8, 0x30u8], b == 0x2F ==> encode_utf8(u) == seq![0x7Eu8, 0x31u8],
  b != 0x7E && b != 0x2F ==> encode_utf8(u) == seq![b] && b < 0x80 && b != 0x25 || (encode_utf8(u).len() == 3 && encode_utf8(u)[0] == 0x25 && is_hex(encode_utf8(u)[1]) && is_hex(encode_utf8(u)[2]) && hex2(encode_utf8(u)[1], encode_utf8(u)[2]) == b)
{
  lemma_ch(u[0]);
  if u.len() == 1 { assert(u =~= seq![u[0]]); }
  else if u.len() == 2 { assert(u =~= seq![u[0]] + seq![u[1]]); lemma_ch(u[1]); encode_utf8_concat(seq![u[0]], seq![u[1]]); 
    assert(encode_utf8(u) =~= seq![u[0] as u8, u[1] as u8]); }
  else { assert(u =~= seq![u[0]] + seq![u[1]] + seq![u[2]]); lemma_ch(u[1]); lemma_ch(u[2]); encode_utf8_concat(seq![u[0]], seq![u[1]]); encode_utf8_concat(seq![u[0]] + seq![u[1]], seq![u[2]]); 
    assert(encode_utf8(u) =~= seq![u[0] as u8, u[1] as u8, u[2] as u8]); }
}
pub proof fn lemma_pd3(ub: Bytes, r: Bytes) requires ub.len() == 3, ub[0] == 0x25, is_hex(ub[1]), is_hex(ub[2]) ensures pd(ub + r) == seq![hex2(ub[1], ub[2])] + pd(r) {
  let x = ub + r; assert(x.skip(3) =~= r); assert(x[0] == ub[0] && x[1] == ub[1] && x[2] == ub[2]); assert(pd(x) == seq![hex2(x[1], x[2])] + pd(x.skip(3)));
}
pub proof fn lemma_pd_unit(u: Str, b: u8, r: Bytes) requires unit(u, b) ensures pd(encode_utf8(u) + r) == tescb1(b) + pd(r) {
  hide(enc);
  let ub = encode_utf8(u); lemma_unit_bytes(u, b);
  if b == 0x7E || b == 0x2F { lemma_plain(ub, r); }
  else if ub.len() == 3 { lemma_pd3(ub, r); }
  else { assert(ub == seq![b]); lemma_plain(ub, r); }
}
pub proof fn lemma_pd_enc(e: Str, bs: Bytes) requires enc(e, bs) ensures pd(encode_utf8(e)) == tescb(bs) decreases bs.len() {
  hide(pd); hide(hex2); hide(is_hex); hide(tescb1);
  if bs.len() > 0 {
    let k = lemma_front(e, bs);
    lemma_pd_enc(e.skip(k), bs.skip(1));
    let u = e.take(k); let f = e.skip(k);
    assert(e =~= u + f); encode_utf8_concat(u, f);
    lemma_pd_unit(u, bs[0], encode_utf8(f));
    assert(tescb(bs) == tescb1(bs[0]) + tescb(bs.skip(1)));
  } else { assert(encode_utf8(e) =~= Seq::<u8>::empty()); assert(pd(Seq::<u8>::empty()) =~= Seq::<u8>::empty()) by { reveal(pd); } }
}
pub proof fn lemma_tescb_cat(a: Bytes, b: Bytes) ensures tescb(a + b) == tescb(a) + tescb(b) decreases a.len() {
  if a.len() == 0 { assert(a + b =~= b); assert(tescb(a) + tescb(b) =~= tescb(b)); }
  else { assert((a + b).skip(1) =~= a.skip(1) + b); lemma_tescb_cat(a.skip(1), b); assert(tescb(a + b) =~= tescb(a) + tescb(b)); }
}
pub proof fn lemma_tescb_hi(a: Bytes) requires forall|i: int| 0 <= i < a.len() ==> a[i] >= 0x80 ensures tescb(a) == a decreases a.len() {
  if a.len() > 0 { lemma_tescb_hi(a.skip(1)); assert(tescb(a) =~= a); } else { assert(tescb(a) =~= a); }
}
pub proof fn lemma_tesc_bytes(s: Str) ensures tescb(encode_utf8(s)) == encode_utf8(tesc(s)) decreases s.len() {
  if s.len() > 0 {
    let c = s[0]; let e = encode_scalar(c as u32); let r = s.skip(1);
    assert(r =~= s.drop_first());
    assert(encode_utf8(s) == e + encode_utf8(r));
    lemma_tesc_bytes(r);
    lemma_tescb_cat(e, encode_utf8(r));
    encode_utf8_concat(tesc1(c), tesc(r));
    if (c as u32) >= 0x80 {
      assert forall|i: int| 0 <= i < e.len() implies e[i] >= 0x80 by { lemma_enc_hi(c, i); }
      lemma_tescb_hi(e); lemma_enc1(c);
    } else {
      lemma_enc_lo(c); lemma_ch(c);
      assert(tescb(seq![c as u8]) =~= tescb1(c as u8)) by { let q = seq![c as u8]; assert(q.skip(1) =~= Seq::<u8>::empty()); assert(tescb(q.skip(1)) =~= Seq::<u8>::empty()); assert(tescb(q) =~= tescb1(q[0]) + tescb(q.skip(1))); assert(tescb1(q[0]) + Seq::<u8>::empty() =~= tescb1(q[0])); }
      if c == '~' || c == '/' { let d = if c == '~' { '0' } else { '1' }; lemma_ch('~'); lemma_ch(d); assert(tesc1(c) =~= seq!['~'] + seq![d]); encode_utf8_concat(seq!['~'], seq![d]); assert(encode_utf8(tesc1(c)) =~= tescb1(c as u8)); }
      else { assert(encode_utf8(tesc1(c)) =~= tescb1(c as u8)); }
    }
  } else { assert(encode_utf8(s) =~= Seq::<u8>::empty()); assert(encode_utf8(tesc(s)) =~= Seq::<u8>::empty()); }
}
pub open spec fn t01(c: char) -> Str { if c == '~' { seq!['~', '0'] } else { seq![c] } }
pub open spec fn t0(s: Str) -> Str decreases s.len() { if s.len() == 0 { Seq::empty() } else { t01(s[0]) + t0(s.skip(1)) } }
pub proof fn lemma_unesc(s: Str) ensures rep2(tesc(s), '~', '1', '/') == t0(s), rep2(t0(s), '~', '0', '~') == s decreases s.len() {
  if s.len() > 0 {
    let r = s.skip(1); let c = s[0];
    lemma_unesc(r);
    let x = tesc(s); let y = t0(s);
    if c == '~' {
      assert(x.skip(1) =~= seq!['0'] + tesc(r)); assert(x.skip(1).skip(1) =~= tesc(r));
      assert(rep2(x.skip(1), '~', '1', '/') =~= seq!['0'] + t0(r));
      assert(rep2(x, '~', '1', '/') =~= y);
      assert(y.skip(2) =~= t0(r));
    } else if c == '/' { assert(x.skip(2) =~= tesc(r)); assert(rep2(x, '~', '1', '/') =~= y); assert(y.skip(1) =~= t0(r)); }
    else { assert(x.skip(1) =~= tesc(r)); assert(rep2(x, '~', '1', '/') =~= y); assert(y.skip(1) =~= t0(r)); }
    assert(rep2(y, '~', '0', '~') =~= s);
  } else { assert(rep2(t0(s), '~', '0', '~') =~= s); }
}
/// an encoding of a name is legal in a URI fragment as a reference token, and percent-decodes and unescapes to that name
pub proof fn theorem_round_trip(e: Str, name: Str)
  requires enc(e, encode_utf8(name))
  ensures legal(e), valid_utf8(pd(encode_utf8(e))), unesc(decode_utf8(pd(encode_utf8(e)))) == name
{
  lemma_legal(e, encode_utf8(name));
  lemma_pd_enc(e, encode_utf8(name));
  lemma_tesc_bytes(name); lemma_dec(tesc(name)); lemma_unesc(name);
}
@fn encoding.rs encode_ref_name / needs_encoding
@as needs_encoding
@spec
  ensures !ret ==> safe(byte)
@fn encoding.rs encode_ref_name
@nloops 2
@spec
  ensures enc(cowv(ret), encode_utf8(name@)),
    legal(cowv(ret)), valid_utf8(pd(encode_utf8(cowv(ret)))), unesc(decode_utf8(pd(encode_utf8(cowv(ret))))) == name@
@start
let ghost bs = encode_utf8(name@);
proof { assert forall|e: Str| #[trigger] enc(e, bs) implies legal(e) && valid_utf8(pd(encode_utf8(e))) && unesc(decode_utf8(pd(encode_utf8(e)))) == name@ by { theorem_round_trip(e, name@); } }
proof { reveal_strlit("~0"); reveal_strlit("~1"); reveal_strlit("%"); }
proof { if forall|i: int| 0 <= i < bs.len() ==> safe(#[trigger] bs[i]) { lemma_safe_name(name@); } }
@loop 0
  invariant it0.seq() == __q0, __q0 == bs, !__r0 ==> forall|i: int| 0 <= i < it0.index() ==> safe(#[trigger] bs[i])
@loop 1
  invariant it1.seq() == __q1, __q1 == bs, enc(buf@, bs.take(it1.index()))
@loopstart 1
let ghost b1 = buf@;
proof { assert(__e1 == bs[it1.index()]); assert(bs.take(it1.index() + 1) =~= bs.take(it1.index()).push(__e1)); lemma_hexc(__e1 / 16); lemma_hexc(__e1 % 16); }
@loopend 1
proof { let u = buf@.skip(b1.len() as int); assert(buf@ =~= b1 + u); lemma_unit(b1, bs.take(it1.index()), u, __e1); }
@afterloop 1
proof { assert(bs.take(bs.len() as int) =~= bs); }
@fn encoding.rs percent_decode
@nloops 5
@spec
  ensures ret.is_some() <==> valid_utf8(pd(encode_utf8(s@))), ret matches Some(c) ==> cowv(c) == decode_utf8(pd(encode_utf8(s@)))
@start
broadcast use {lemma_split, lemma_skip0};
let ghost b0 = encode_utf8(s@);
proof { lemma_dec(s@); if !s@.contains('%') { assert(no_char(s@, '%')); lemma_pct(s@); lemma_plain(b0, Seq::empty()); assert(b0 + Seq::<u8>::empty() =~= b0); assert(pd(b0) =~= b0); } }
@loop 0
  invariant it0.seq() == __q0, buf@ == derefs(__q0).take(it0.index())
@loopstart 0
proof { assert(derefs(__q0).take(it0.index() + 1) =~= derefs(__q0).take(it0.index()).push(*__e0)); }
@afterloop 0
proof { assert(derefs(__q0).take(__q0.len() as int) =~= derefs(__q0)); }
@loop 1
  invariant it1.seq() == __q1, buf@ + pd(encode_utf8(joined(txts(__q1).skip(it1.index()), '%'))) == pd(b0),
    forall|i: int| 0 <= i < __q1.len() ==> no_char(#[trigger] txts(__q1)[i], '%')
@loopstart 1
let ghost b1 = buf@;
let ghost x = encode_utf8(__e1@);
let ghost r1 = pd(encode_utf8(joined(txts(__q1).skip(it1.index() + 1), '%')));
proof {
  let q = txts(__q1).skip(it1.index());
  assert(q[0] == txts(__q1)[it1.index()]);
  assert(q.drop_first() =~= txts(__q1).skip(it1.index() + 1));
  lemma_joined(q); lemma_two(__e1@);
  assert(b1 + (pseg(x) + r1) =~= (b1 + pseg(x)) + r1);
}
@loopend 1
proof { assert(buf@ =~= b1 + pseg(x)); }
@loop 2
  invariant it2.seq() == __q2, __r2 <==> forall|j: int| 0 <= j < it2.index() ==> is_hex(#[trigger] __q2[j])
@loop 3
  invariant it3.seq() == __q3, buf@ == b1.push(decoded_byte) + derefs(__q3).take(it3.index())
@loopstart 3
proof { assert(derefs(__q3).take(it3.index() + 1) =~= derefs(__q3).take(it3.index()).push(*__e3)); }
@afterloop 3
proof { assert(derefs(__q3).take(__q3.len() as int) =~= derefs(__q3)); }
@loop 4
  invariant it4.seq() == __q4, buf@ == b1.push(0x25) + derefs(__q4).take(it4.index())
@loopstart 4
proof { assert(derefs(__q4).take(it4.index() + 1) =~= derefs(__q4).take(it4.index()).push(*__e4)); }
@afterloop 4
proof { assert(derefs(__q4).take(__q4.len() as int) =~= derefs(__q4)); }
@verus
/// the value Schema::pointer looks up: a leading '#' marks a URI fragment
pub open spec fn fragment(p: Str) -> Option<Str> {
  if p.len() > 0 && p[0] == '#' { if valid_utf8(pd(encode_utf8(p.skip(1)))) { Some(decode_utf8(pd(encode_utf8(p.skip(1))))) } else { None } } else { Some(p) }
}
pub open spec fn look_up(v: V, p: Str) -> Option<V> { match fragment(p) { Some(q) => ptr(v, q), None => None } }
@fn schema.rs impl Schema / pointer
@call .pointer=>v_pointer
@spec
  ensures ovr(ret) == look_up(sv(*self), pointer@)
@fn schema.rs impl Schema / pointer_mut
@call .pointer_mut=>v_pointer_mut
@spec
  ensures match ret {
    Some(x) => Some(vv(*x)) == look_up(sv(*old(self)), pointer@) && sv(*final(self)) == ptr_set(sv(*old(self)), fragment(pointer@).unwrap(), vv(*final(x))),
    None => look_up(sv(*old(self)), pointer@).is_none() && sv(*final(self)) == sv(*old(self)),
  }
