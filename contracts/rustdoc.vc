@@ schemars/src/_private/rustdoc.rs (C17)
@verus
pub open spec fn wsc(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0C' || c == '\r' }
pub open spec fn trim_l(s: Str) -> Str decreases s.len() { if s.len() > 0 && wsc(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_r(s: Str) -> Str decreases s.len() { if s.len() > 0 && wsc(s.last()) { trim_r(s.drop_last()) } else { s } }
/// the text without ASCII whitespace at its ends
pub open spec fn trim(s: Str) -> Str { trim_r(trim_l(s)) }
pub open spec fn strip(s: Str, c: char) -> Str decreases s.len() { if s.len() > 0 && s[0] == c { strip(s.skip(1), c) } else { s } }
/// the length of the first line
pub open spec fn line_end(s: Str) -> int decreases s.len() { if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + line_end(s.skip(1)) } }
pub open spec fn title_of(doc: Str) -> Str { let t = trim(doc); if t.len() > 0 && t[0] == '#' { trim(strip(t.take(line_end(t)), '#')) } else { Seq::empty() } }
pub open spec fn description_of(doc: Str) -> Str { let t = trim(doc); if t.len() > 0 && t[0] == '#' { trim(t.skip(line_end(t))) } else { t } }

pub proof fn lemma_line_end(s: Str) ensures 0 <= line_end(s) <= s.len(), line_end(s) < s.len() ==> s[line_end(s)] == '\n', forall|i: int| 0 <= i < line_end(s) ==> s[i] != '\n' decreases s.len() {
  if s.len() > 0 && s[0] != '\n' {
    lemma_line_end(s.skip(1));
    assert forall|i: int| 0 <= i < line_end(s) implies s[i] != '\n' by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
  }
}
pub proof fn lemma_line_end_at(s: Str, j: int) requires 0 <= j <= s.len(), j < s.len() ==> s[j] == '\n', forall|i: int| 0 <= i < j ==> s[i] != '\n' ensures line_end(s) == j { lemma_line_end(s); }
pub broadcast proof fn lemma_nil(b: Seq<u8>) requires b.len() == 0, valid_utf8(b) ensures (#[trigger] decode_utf8(b)).len() == 0 { lemma_first(b); }
pub proof fn lemma_ws(b: u8) requires b < 0x80 ensures is_ws(b) == wsc(b as char) { }
/// cutting before the first newline byte cuts before the first newline character
pub proof fn lemma_line(b: Seq<u8>, i: int)
  requires valid_utf8(b), 0 <= i <= b.len(), i < b.len() ==> b[i] == 0x0A, forall|k: int| 0 <= k < i ==> b[k] != 0x0A
  ensures valid_utf8(b.take(i)), valid_utf8(b.skip(i)), decode_utf8(b.take(i)) == decode_utf8(b).take(line_end(decode_utf8(b))), decode_utf8(b.skip(i)) == decode_utf8(b).skip(line_end(decode_utf8(b)))
{
  let s = decode_utf8(b);
  decode_utf8_encode_utf8(b);
  let j = if i < b.len() { lemma_cut(s, i) } else { s.len() as int };
  if i == b.len() {
    assert(s.take(j) =~= s); assert(b.take(i) =~= b); assert(s.skip(j) =~= Seq::<char>::empty()); assert(b.skip(i) =~= Seq::<u8>::empty());
    assert(encode_utf8(s.skip(j)) =~= b.skip(i));
  }
  lemma_dec(s.take(j)); lemma_dec(s.skip(j));
  assert forall|n: int| 0 <= n < j implies s[n] != '\n' by {
    if s[n] == '\n' {
      let x = s.take(j);
      assert(x =~= x.take(n) + (seq!['\n'] + x.skip(n + 1)));
      encode_utf8_concat(x.take(n), seq!['\n'] + x.skip(n + 1));
      encode_utf8_concat(seq!['\n'], x.skip(n + 1));
      lemma_enc1('\n'); lemma_enc_lo('\n');
      let k = encode_utf8(x.take(n)).len() as int;
      assert(b.take(i)[k] == 0x0A);
      assert(b[k] == 0x0A);
    }
  }
  lemma_line_end_at(s, j);
}
pub broadcast proof fn lemma_line_take(b: Seq<u8>, z: int, i: int)
  requires valid_utf8(b), z == 0, 0 <= i <= b.len(), i < b.len() ==> b[i] == 0x0A, forall|k: int| 0 <= k < i ==> b[k] != 0x0A
  ensures #![trigger decode_utf8(b), b.subrange(z, i)] valid_utf8(b.subrange(z, i)), decode_utf8(b.subrange(z, i)) == decode_utf8(b).take(line_end(decode_utf8(b)))
{ lemma_line(b, i); }
pub broadcast proof fn lemma_line_skip(b: Seq<u8>, i: int, n: int)
  requires valid_utf8(b), n == b.len(), 0 <= i <= b.len(), i < b.len() ==> b[i] == 0x0A, forall|k: int| 0 <= k < i ==> b[k] != 0x0A
  ensures #![trigger decode_utf8(b), b.subrange(i, n)] valid_utf8(b.subrange(i, n)), decode_utf8(b.subrange(i, n)) == decode_utf8(b).skip(line_end(decode_utf8(b)))
{ lemma_line(b, i); }
pub broadcast proof fn lemma_head(b: Seq<u8>)
  requires valid_utf8(b)
  ensures (b.len() > 0) == ((#[trigger] decode_utf8(b)).len() > 0), b.len() > 0 ==> (b[0] == 0x23 <==> decode_utf8(b)[0] == '#')
{ lemma_first(b); }
@fn _private/rustdoc.rs strchr
@nloops 1
@spec
  ensures ret matches Some(i) ==> 0 <= i < bytes@.len() && bytes@[i as int] == chr && forall|k: int| 0 <= k < i ==> bytes@[k] != chr,
    ret.is_none() ==> forall|k: int| 0 <= k < bytes@.len() ==> bytes@[k] != chr
@loop 0
  invariant i <= len, len == bytes@.len(), forall|k: int| 0 <= k < i ==> bytes@[k] != chr
  decreases len - i
@fn _private/rustdoc.rs subslice
@attr #[verifier::loop_isolation(true)]
@nloops 2
@spec
  requires start <= end <= bytes@.len()
  ensures ret@ == bytes@.subrange(start as int, end as int)
@start
let ghost b0 = bytes@;
let ghost s0 = start;
@loop 0
  invariant_except_break trim_end_count > 0, bytes@.len() > end
  invariant b0.len() >= bytes@.len(), bytes@.len() >= end, bytes@.len() >= trim_end_count, bytes@.len() - trim_end_count == end, bytes@ == b0.take(bytes@.len() as int)
  ensures bytes@.len() == end, bytes@ == b0.take(end as int)
  decreases bytes@.len()
@loop 1
  invariant_except_break start > 0
  invariant end <= b0.len(), s0 <= end, 0 <= start <= s0, bytes@.len() == end - (s0 - start), bytes@ == b0.subrange(s0 - start, end as int)
  ensures bytes@ == b0.subrange(s0 as int, end as int)
  decreases bytes@.len()
@fn _private/rustdoc.rs to_utf8
@spec
  requires valid_utf8(bytes@)
  ensures ret@ == decode_utf8(bytes@)
@fn _private/rustdoc.rs trim_start
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@nloops 1
@spec
  requires chr < 0x80
  ensures valid_utf8(bytes@) ==> valid_utf8(ret@) && decode_utf8(ret@) == strip(decode_utf8(bytes@), chr as char)
@start
broadcast use lemma_nil;
let ghost b0 = bytes@;
proof { if valid_utf8(bytes@) { lemma_first(bytes@); } }
@loop 0
  invariant chr < 0x80, valid_utf8(b0) ==> valid_utf8(bytes@) && strip(decode_utf8(bytes@), chr as char) == strip(decode_utf8(b0), chr as char)
  ensures valid_utf8(b0) ==> valid_utf8(bytes@) && decode_utf8(bytes@) == strip(decode_utf8(b0), chr as char)
  decreases bytes@.len()
@loopstart 0
broadcast use lemma_nil;
proof { if valid_utf8(bytes@) { lemma_first(bytes@); } }
@afterloop 0
proof { if valid_utf8(bytes@) { lemma_first(bytes@); } }
@fn _private/rustdoc.rs trim_ascii
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@nloops 2
@spec
  ensures valid_utf8(bytes@) ==> valid_utf8(ret@) && decode_utf8(ret@) == trim(decode_utf8(bytes@))
@start
broadcast use lemma_nil;
let ghost b0 = bytes@;
@loop 0
  invariant valid_utf8(b0) ==> valid_utf8(bytes@) && trim_l(decode_utf8(bytes@)) == trim_l(decode_utf8(b0))
  ensures valid_utf8(b0) ==> valid_utf8(bytes@) && decode_utf8(bytes@) == trim_l(decode_utf8(b0))
  decreases bytes@.len()
@loopstart 0
broadcast use lemma_nil;
proof { if valid_utf8(bytes@) { lemma_first(bytes@); } }
@loop 1
  invariant valid_utf8(b0) ==> valid_utf8(bytes@) && trim_r(decode_utf8(bytes@)) == trim(decode_utf8(b0))
  ensures valid_utf8(b0) ==> valid_utf8(bytes@) && decode_utf8(bytes@) == trim(decode_utf8(b0))
  decreases bytes@.len()
@loopstart 1
broadcast use lemma_nil;
proof { if valid_utf8(bytes@) { lemma_last(bytes@); } }
@fn _private/rustdoc.rs get_title_and_description
@spec
  ensures ret.0@ == title_of(doc@), ret.1@ == description_of(doc@)
@start
broadcast use {lemma_line_take, lemma_line_skip, lemma_head};
proof { lemma_dec(doc@); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
