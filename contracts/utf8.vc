@@ lemmas over UTF-8 (vstd::utf8)
@verus
pub proof fn lemma_enc_hi(c: char, i: int) requires (c as u32) >= 0x80, 0 <= i < encode_scalar(c as u32).len() ensures encode_scalar(c as u32)[i] >= 0x80 {
  let u = c as u32; let e = encode_scalar(u);
  assert forall|x: u8| #[trigger] (0x80u8 | x) >= 0x80 by { assert(0x80u8 | x >= 0x80) by (bit_vector); }
  assert forall|x: u8| #[trigger] (0xC0u8 | x) >= 0x80 by { assert(0xC0u8 | x >= 0x80) by (bit_vector); }
  assert forall|x: u8| #[trigger] (0xE0u8 | x) >= 0x80 by { assert(0xE0u8 | x >= 0x80) by (bit_vector); }
  assert forall|x: u8| #[trigger] (0xF0u8 | x) >= 0x80 by { assert(0xF0u8 | x >= 0x80) by (bit_vector); }
  assert forall|x: u8| #[trigger] (x | 0x80u8) >= 0x80 by { assert(x | 0x80u8 >= 0x80) by (bit_vector); }
  if u < 0x800 { assert(e.len() == 2); assert(e[0] >= 0x80); assert(e[1] >= 0x80); }
  else if u < 0x10000 { assert(e.len() == 3); assert(e[0] >= 0x80); assert(e[1] >= 0x80); assert(e[2] >= 0x80); }
  else { assert(e.len() == 4); assert(e[0] >= 0x80); assert(e[1] >= 0x80); assert(e[2] >= 0x80); }
}
pub proof fn lemma_enc_lo(c: char) requires (c as u32) < 0x80 ensures encode_scalar(c as u32) == seq![c as u8] { let u = c as u32; assert(u & 0x7f == u) by (bit_vector) requires u < 0x80; assert(encode_scalar(u) =~= seq![c as u8]); }
pub proof fn lemma_enc1(c: char) ensures encode_utf8(seq![c]) == encode_scalar(c as u32), encode_scalar(c as u32).len() > 0 {
  assert(seq![c].drop_first() =~= Seq::<char>::empty());
  assert(encode_utf8(seq![c].drop_first()) =~= Seq::<u8>::empty());
  assert(encode_utf8(seq![c]) =~= encode_scalar(c as u32));
}
/// an ASCII byte of an encoded text is that ASCII character, and the text can be cut there
pub proof fn lemma_cut(s: Str, i: int) -> (j: int)
  requires 0 <= i < encode_utf8(s).len(), encode_utf8(s)[i] < 0x80
  ensures 0 <= j < s.len(), s[j] == encode_utf8(s)[i] as char, encode_utf8(s.take(j)) == encode_utf8(s).take(i), encode_utf8(s.skip(j)) == encode_utf8(s).skip(i),
    encode_utf8(s.skip(j + 1)) == encode_utf8(s).skip(i + 1), j == 0 <==> i == 0
  decreases s.len()
{
  let c = s[0];
  let e = encode_scalar(c as u32);
  let r = s.drop_first();
  assert(encode_utf8(s) == e + encode_utf8(r));
  lemma_enc1(c);
  if i < e.len() {
    if (c as u32) >= 0x80 { lemma_enc_hi(c, i); } else { lemma_enc_lo(c); }
    assert(i == 0);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(encode_utf8(s.take(0)) =~= Seq::<u8>::empty());
    assert(encode_utf8(s).take(0) =~= Seq::<u8>::empty());
    assert(s.skip(0) =~= s); assert(encode_utf8(s).skip(0) =~= encode_utf8(s));
    assert(s.skip(1) =~= r); assert(encode_utf8(s).skip(1) =~= encode_utf8(r));
    0
  } else {
    let j = lemma_cut(r, i - e.len());
    assert(s.take(j + 1) =~= seq![c] + r.take(j));
    encode_utf8_concat(seq![c], r.take(j));
    assert(encode_utf8(s).take(i) =~= e + encode_utf8(r).take(i - e.len()));
    assert(s.skip(j + 1) =~= r.skip(j));
    assert(encode_utf8(s).skip(i) =~= encode_utf8(r).skip(i - e.len()));
    assert(s.skip(j + 2) =~= r.skip(j + 1));
    assert(encode_utf8(s).skip(i + 1) =~= encode_utf8(r).skip(i - e.len() + 1));
    j + 1
  }
}
pub proof fn lemma_dec(s: Str) ensures valid_utf8(encode_utf8(s)), decode_utf8(encode_utf8(s)) == s { encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s); }
/// the first byte is ASCII exactly when the first character is, and then both can be dropped
pub proof fn lemma_first(b: Seq<u8>)
  requires valid_utf8(b)
  ensures (b.len() > 0) == (decode_utf8(b).len() > 0),
    b.len() > 0 ==> ((b[0] < 0x80 <==> (decode_utf8(b)[0] as u32) < 0x80) && (b[0] < 0x80 ==> decode_utf8(b)[0] == b[0] as char && valid_utf8(b.skip(1)) && decode_utf8(b.skip(1)) == decode_utf8(b).skip(1))),
{
  let s = decode_utf8(b);
  decode_utf8_encode_utf8(b);
  if s.len() > 0 { lemma_enc1(s[0]); assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first())); 
    if (s[0] as u32) < 0x80 { lemma_enc_lo(s[0]); } else { lemma_enc_hi(s[0], 0); } }
  if b.len() > 0 && b[0] < 0x80 {
    let j = lemma_cut(s, 0);
    lemma_dec(s.skip(1));
  }
}
pub proof fn lemma_last(b: Seq<u8>)
  requires valid_utf8(b)
  ensures (b.len() > 0) == (decode_utf8(b).len() > 0),
    b.len() > 0 ==> ((b.last() < 0x80 <==> (decode_utf8(b).last() as u32) < 0x80) && (b.last() < 0x80 ==> decode_utf8(b).last() == b.last() as char && valid_utf8(b.drop_last()) && decode_utf8(b.drop_last()) == decode_utf8(b).drop_last())),
{
  let s = decode_utf8(b);
  decode_utf8_encode_utf8(b);
  lemma_first(b);
  if s.len() > 0 {
    assert(s =~= s.drop_last() + seq![s.last()]);
    encode_utf8_concat(s.drop_last(), seq![s.last()]);
    lemma_enc1(s.last());
    let e = encode_scalar(s.last() as u32);
    if (s.last() as u32) < 0x80 { lemma_enc_lo(s.last()); } else { lemma_enc_hi(s.last(), e.len() - 1); }
    if b.last() < 0x80 {
      assert(b.drop_last() =~= encode_utf8(s.drop_last()));
      lemma_dec(s.drop_last());
    }
  }
}
