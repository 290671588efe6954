@@ schemars/src/_private/regex_syntax.rs and must_contain (C16)
@verus
pub open spec fn meta(c: char) -> bool {
  c == '\\' || c == '.' || c == '+' || c == '*' || c == '?' || c == '(' || c == ')' || c == '|' || c == '[' || c == ']' || c == '{' || c == '}'
  || c == '^' || c == '$' || c == '#' || c == '&' || c == '-' || c == '~'
}
pub open spec fn esc1(c: char) -> Str { if meta(c) { seq!['\\', c] } else { seq![c] } }
/// the text with a backslash before each metacharacter
pub open spec fn esc(s: Str) -> Str decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) } }
pub broadcast proof fn lemma_esc_push(s: Str, c: char) ensures #[trigger] esc(s.push(c)) == esc(s) + esc1(c) { assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_esc_take(s: Str, i: int) requires 0 <= i < s.len() ensures esc(s.take(i + 1)) == esc(s.take(i)) + esc1(s[i]) { assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
/// what a regular expression made only of literal characters and escaped metacharacters matches: its one text
/// (None: it contains an operator)
pub open spec fn literal(p: Str) -> Option<Str> decreases p.len() {
  if p.len() == 0 { Some(Seq::empty()) }
  else if p[0] == '\\' {
    if p.len() >= 2 && meta(p[1]) { match literal(p.skip(2)) { Some(r) => Some(seq![p[1]] + r), None => None } } else { None }
  } else if meta(p[0]) { None }
  else { match literal(p.skip(1)) { Some(r) => Some(seq![p[0]] + r), None => None } }
}
pub proof fn lemma_esc_front(c: char, s: Str) ensures esc(seq![c] + s) == esc1(c) + esc(s) decreases s.len() {
  let t = seq![c] + s;
  if s.len() == 0 {
    assert(t.drop_last() =~= Seq::<char>::empty()); assert(esc(t.drop_last()) =~= Seq::<char>::empty());
    assert(esc(t) =~= esc1(c) + esc(s));
  } else {
    assert(t.drop_last() =~= seq![c] + s.drop_last());
    lemma_esc_front(c, s.drop_last());
    assert(esc(t) =~= esc1(c) + esc(s));
  }
}
/// the escaped text is a literal pattern for exactly that text
pub proof fn theorem_escape_is_literal(s: Str) ensures literal(esc(s)) == Some(s) decreases s.len() {
  if s.len() == 0 { assert(s =~= Seq::<char>::empty()); }
  else {
    let c = s[0];
    let t = s.skip(1);
    assert(s =~= seq![c] + t);
    lemma_esc_front(c, t);
    theorem_escape_is_literal(t);
    let p = esc(s);
    if meta(c) { assert(p[0] == '\\' && p[1] == c); assert(p.skip(2) =~= esc(t)); }
    else { assert(p[0] == c); assert(p.skip(1) =~= esc(t)); }
  }
}
@fn _private/regex_syntax.rs escape
@spec
  ensures ret@ == esc(text@), literal(ret@) == Some(text@)
@start
proof { theorem_escape_is_literal(text@); }
@fn _private/regex_syntax.rs escape_into
@nloops 1
@spec
  ensures final(buf)@ == old(buf)@ + esc(text@)
@start
let ghost b0 = buf@;
@loop 0
  invariant it0.seq() == __q0, __q0 == text@, buf@ == b0 + esc(text@.take(it0.index()))
@loopstart 0
proof { lemma_esc_take(text@, it0.index()); }
@afterloop 0
proof { assert(text@.take(text@.len() as int) =~= text@); }
@fn _private/regex_syntax.rs is_meta_character
@spec
  ensures ret == meta(c)
@fn _private/mod.rs must_contain
@spec
  requires is_schema(sv(*old(schema)))
  ensures
    same(sv(*final(schema)), (if has_type_spec(sv(*old(schema)), "string"@) { V::Obj(as_obj(sv(*old(schema))).insert("pattern"@, V::Str(esc(substring@)))) } else { sv(*old(schema)) })),
    literal(esc(substring@)) == Some(substring@)
