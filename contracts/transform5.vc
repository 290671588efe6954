@@ RestrictFormats (C11)
@verus
pub open spec fn strs(s: Seq<&str>) -> Seq<Str> { s.map_values(|x: &str| x@) }
pub broadcast proof fn lemma_strs_skip(s: Seq<&str>, n: int) requires 0 <= n <= s.len() ensures strs(#[trigger] s.skip(n)) == strs(s).skip(n) { assert(strs(s.skip(n)) =~= strs(s).skip(n)); }
pub uninterp spec fn cset(s: BTreeSet<Cow<'static, str>>) -> ISet<Str>;
pub trait VContains<A> { spec fn cont(&self, a: A) -> bool; fn v_contains(&self, a: A) -> (r: bool) ensures r == self.cont(a); }
impl<'b> VContains<&'b str> for BTreeSet<Cow<'static, str>> {
  open spec fn cont(&self, a: &'b str) -> bool { cset(*self).contains(a@) }
  #[verifier::external_body]
  fn v_contains(&self, a: &'b str) -> (r: bool) { self.contains(a) }
}
impl<'b, 'c> VContains<&'b &'c str> for [&'static str] {
  open spec fn cont(&self, a: &'b &'c str) -> bool { strs(self@).contains(a@) }
  #[verifier::external_body]
  fn v_contains(&self, a: &'b &'c str) -> (r: bool) { self.contains(a) }
}
pub trait VSlice { type T; spec fn vs(&self) -> Seq<Self::T>;
  fn v_slice_from<'a>(&'a self, a: usize) -> (r: &'a [Self::T]) requires a <= self.vs().len() ensures r@ == self.vs().skip(a as int);
}
impl<T> VSlice for [T] { type T = T; open spec fn vs(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn v_slice_from<'a>(&'a self, a: usize) -> (r: &'a [T]) { &self[a..] }
}
pub trait VDefault<'a> { fn v_unwrap_or_default(self) -> &'a str; }
impl<'a> VDefault<'a> for Option<&'a str> {
  fn v_unwrap_or_default(self) -> (r: &'a str) ensures r@ == (match self { Some(s) => s@, None => ""@ }) { match self { Some(s) => s, None => "" } }
}
/// formats the JSON Schema version defines (draft 2019-09 and 2020-12 add duration and uuid to draft-07's)
pub open spec fn fmt07(s: Str) -> bool {
  s == "date-time"@ || s == "date"@ || s == "time"@ || s == "email"@ || s == "idn-email"@ || s == "hostname"@ || s == "idn-hostname"@
  || s == "ipv4"@ || s == "ipv6"@ || s == "uri"@ || s == "uri-reference"@ || s == "iri"@ || s == "iri-reference"@ || s == "uri-template"@
  || s == "json-pointer"@ || s == "relative-json-pointer"@ || s == "regex"@
}
pub enum Ver { D07, D2019 }
pub open spec fn defined(v: Ver, s: Str) -> bool { match v { Ver::D07 => fmt07(s), Ver::D2019 => fmt07(s) || s == "duration"@ || s == "uuid"@ } }
/// the version a `$schema` value names
pub open spec fn ver_of(v: V) -> Option<Ver> {
  match v {
    V::Str(s) => if s == "http://json-schema.org/draft-07/schema#"@ { Some(Ver::D07) }
      else if s == "https://json-schema.org/draft/2019-09/schema"@ || s == "https://json-schema.org/draft/2020-12/schema"@ { Some(Ver::D2019) } else { None },
    _ => None,
  }
}
pub struct RF { pub infer: bool, pub ver: Option<Ver>, pub allowed: ISet<Str> }
pub open spec fn fmt_ok(c: RF, s: Str) -> bool { (c.infer && c.ver is None) || c.allowed.contains(s) || (c.ver is Some && defined(c.ver->Some_0, s)) }
pub open spec fn l_rf(c: RF, m: VM) -> VM {
  match mget(m, "format"@) { Some(V::Str(s)) => if fmt_ok(c, s) { m } else { m.remove("format"@) }, _ => m }
}
pub open spec fn rf_here(c: RF, m: VM) -> RF { if c.infer && m.dom().contains("$schema"@) { RF { ver: ver_of(m["$schema"@]), ..c } } else { c } }
pub open spec fn rf_unknown(c: RF, m: VM) -> bool { c.infer && m.dom().contains("$schema"@) && ver_of(m["$schema"@]) is None }
/// at and below an unrecognised $schema nothing changes; a recognised one takes effect for the schema and everything below it
pub open spec fn f_rf(c: RF, v: V) -> V decreases v {
  match v {
    V::Obj(m) => if rf_unknown(c, m) { v } else { V::Obj(subs_m(l_rf(rf_here(c, m), m), |x: V| if below(x, v) { f_rf(rf_here(c, m), x) } else { x })) },
    _ => v,
  }
}
pub open spec fn cf_rf(c: RF) -> spec_fn(V) -> V { |x: V| f_rf(c, x) }
pub proof fn lemma_f_rf(c: RF, m: VM)
  ensures !rf_unknown(c, m) ==> f_rf(c, V::Obj(m)) == V::Obj(subs_m(l_rf(rf_here(c, m), m), cf_rf(rf_here(c, m))))
{
  if !rf_unknown(c, m) {
    let v = V::Obj(m);
    let h = rf_here(c, m);
    let g = |x: V| if below(x, v) { f_rf(h, x) } else { x };
    let f = cf_rf(h);
    let l = l_rf(h, m);
    assert forall|k: Str, x: V| l.dom().contains(k) && is_schema(x) && #[trigger] subpos(k, l[k], x) implies f(x) == g(x) by { lemma_subpos_below(m, k, x); }
    lemma_subs_cong(l, f, g);
    broadcast use lemma_subs_ext;
  }
}
@type transform.rs RestrictFormats
@type transform.rs RestrictFormatsImpl
@constspec transform.rs DEFINED_FORMATS
@verus
pub open spec fn is_list(l: Seq<Str>, v: Ver) -> bool { forall|s: Str| l.contains(s) <==> #[trigger] defined(v, s) }
pub proof fn lemma_formats(l: Seq<Str>)
  requires l == spec_DEFINED_FORMATS()
  ensures is_list(l, Ver::D2019), is_list(l.skip(2), Ver::D07)
{
  let t = l.skip(2);
  assert(l.len() == 19);
  assert forall|s: Str| l.contains(s) implies #[trigger] defined(Ver::D2019, s) by { let i = choose|i: int| 0 <= i < l.len() && l[i] == s; }
  assert forall|s: Str| t.contains(s) implies #[trigger] defined(Ver::D07, s) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == s; assert(t[i] == l[i + 2]); }
  assert forall|s: Str| #[trigger] defined(Ver::D07, s) implies t.contains(s) by {
    let i = lemma_fmt_find(l, s);
    assert(t[i - 2] == s);
  }
  assert forall|s: Str| #[trigger] defined(Ver::D2019, s) implies l.contains(s) by {
    let i = lemma_fmt_find(l, s);
    assert(l[i] == s);
  }
}
proof fn lemma_fmt_find(l: Seq<Str>, s: Str) -> (i: int)
  requires l == spec_DEFINED_FORMATS(), defined(Ver::D2019, s)
  ensures 0 <= i < 19, l.len() == 19, l[i] == s, fmt07(s) ==> i >= 2
{
  assert(l.len() == 19);
  if l[0] == s { lemma_not07(s); 0 } else if l[1] == s { lemma_not07(s); 1 }
  else if l[2] == s { 2 } else if l[3] == s { 3 } else if l[4] == s { 4 } else if l[5] == s { 5 } else if l[6] == s { 6 }
  else if l[7] == s { 7 } else if l[8] == s { 8 } else if l[9] == s { 9 } else if l[10] == s { 10 } else if l[11] == s { 11 }
  else if l[12] == s { 12 } else if l[13] == s { 13 } else if l[14] == s { 14 } else if l[15] == s { 15 } else if l[16] == s { 16 }
  else if l[17] == s { 17 } else { 18 }
}
proof fn lemma_not07(s: Str) requires s == "duration"@ || s == "uuid"@ ensures !fmt07(s) {
  reveal_strlit("date-time"); reveal_strlit("date"); reveal_strlit("time"); reveal_strlit("email"); reveal_strlit("idn-email"); reveal_strlit("hostname"); reveal_strlit("idn-hostname"); reveal_strlit("ipv4"); reveal_strlit("ipv6"); reveal_strlit("uri"); reveal_strlit("uri-reference"); reveal_strlit("iri"); reveal_strlit("iri-reference"); reveal_strlit("uri-template"); reveal_strlit("json-pointer"); reveal_strlit("relative-json-pointer"); reveal_strlit("regex"); reveal_strlit("duration"); reveal_strlit("uuid");
  assert("date-time"@.len() != s.len() || "date-time"@[0] != s[0] || "date-time"@[1] != s[1]); assert("date"@.len() != s.len() || "date"@[0] != s[0] || "date"@[1] != s[1]); assert("time"@.len() != s.len() || "time"@[0] != s[0] || "time"@[1] != s[1]); assert("email"@.len() != s.len() || "email"@[0] != s[0] || "email"@[1] != s[1]); assert("idn-email"@.len() != s.len() || "idn-email"@[0] != s[0] || "idn-email"@[1] != s[1]); assert("hostname"@.len() != s.len() || "hostname"@[0] != s[0] || "hostname"@[1] != s[1]); assert("idn-hostname"@.len() != s.len() || "idn-hostname"@[0] != s[0] || "idn-hostname"@[1] != s[1]); assert("ipv4"@.len() != s.len() || "ipv4"@[0] != s[0] || "ipv4"@[1] != s[1]); assert("ipv6"@.len() != s.len() || "ipv6"@[0] != s[0] || "ipv6"@[1] != s[1]); assert("uri"@.len() != s.len() || "uri"@[0] != s[0] || "uri"@[1] != s[1]); assert("uri-reference"@.len() != s.len() || "uri-reference"@[0] != s[0] || "uri-reference"@[1] != s[1]); assert("iri"@.len() != s.len() || "iri"@[0] != s[0] || "iri"@[1] != s[1]); assert("iri-reference"@.len() != s.len() || "iri-reference"@[0] != s[0] || "iri-reference"@[1] != s[1]); assert("uri-template"@.len() != s.len() || "uri-template"@[0] != s[0] || "uri-template"@[1] != s[1]); assert("json-pointer"@.len() != s.len() || "json-pointer"@[0] != s[0] || "json-pointer"@[1] != s[1]); assert("relative-json-pointer"@.len() != s.len() || "relative-json-pointer"@[0] != s[0] || "relative-json-pointer"@[1] != s[1]); assert("regex"@.len() != s.len() || "regex"@[0] != s[0] || "regex"@[1] != s[1]);
}
impl<'a> RestrictFormatsImpl<'a> {
  pub open spec fn wf(&self) -> bool { self.inferred_formats matches Some(l) ==> strs(l@) == spec_DEFINED_FORMATS() || strs(l@) == spec_DEFINED_FORMATS().skip(2) }
  pub open spec fn c(&self) -> RF { RF { infer: self.infer_from_meta_schema, allowed: cset(*self.allowed_formats),
     ver: match self.inferred_formats { None => None, Some(l) => Some(if strs(l@) == spec_DEFINED_FORMATS() { Ver::D2019 } else { Ver::D07 }) } } }
  pub open spec fn f(&self) -> spec_fn(V) -> V { cf_rf(self.c()) }
}
@for $X|$D <- RestrictFormatsImpl<'_>|RestrictFormatsImpl
@fn transform.rs transform_subschemas
@as transform_subschemas__$D
@subst T=$X
@deps $D::transform
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(true)]
@nloops 4
@spec
  requires is_schema(sv(*old(schema))), old(t).wf()
  ensures same(sv(*final(schema)), subs(sv(*old(schema)), old(t).f())), *final(t) == *old(t)
@start
broadcast use group_subs;
let ghost f0 = t.f();
let ghost t0 = *t;
@loop 0
  invariant *t == t0, t0.wf(), f0 == t.f(), it0.seq() == __q0,
    forall|i: int| 0 <= i < it0.index() ==> vv(*final((#[trigger] __q0[i]).1)) == sub_val(__q0[i].0@, vv(*__q0[i].1), f0)
@loopstart 0
broadcast use group_subs;
@loop 1
  invariant *t == t0, t0.wf(), f0 == t.f(), it1.seq() == __q1,
    forall|i: int| 0 <= i < it1.index() ==> vv(*final(#[trigger] __q1[i])) == app(vv(*__q1[i]), f0)
@loop 2
  invariant *t == t0, t0.wf(), f0 == t.f(), it2.seq() == __q2,
    forall|i: int| 0 <= i < it2.index() ==> vv(*final(#[trigger] __q2[i])) == app(vv(*__q2[i]), f0)
@loop 3
  invariant *t == t0, t0.wf(), f0 == t.f(), it3.seq() == __q3,
    forall|i: int| 0 <= i < it3.index() ==> vv(*final(#[trigger] __q3[i])) == app(vv(*__q3[i]), f0)
@endfor
@fn transform.rs impl Transform for RestrictFormatsImpl / transform
@kind method
@call transform_subschemas=>transform_subschemas__RestrictFormatsImpl
@attr #[verifier::exec_allows_no_decreases_clause]
@nloops 0
@spec
  requires is_schema(sv(*old(schema))), old(self).wf()
  ensures same(sv(*final(schema)), (old(self).f())(sv(*old(schema)))), is_schema(sv(*final(schema))), *final(self) == *old(self)
@start
broadcast use lemma_strs_skip;
let ghost v0 = sv(*schema);
proof { if v0 is Obj { lemma_f_rf(self.c(), v0->Obj_0); } lemma_formats(spec_DEFINED_FORMATS()); lemma_lists_differ(); }
@verus
pub proof fn lemma_lists_differ() ensures spec_DEFINED_FORMATS() != spec_DEFINED_FORMATS().skip(2) { assert(spec_DEFINED_FORMATS().len() == 19); }
@fn transform.rs impl Transform for RestrictFormats / transform
@kind method
@deps RestrictFormatsImpl::transform
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), f_rf(RF { infer: old(self).infer_from_meta_schema, ver: None, allowed: cset(old(self).allowed_formats) }, sv(*old(schema)))), is_schema(sv(*final(schema))), *final(self) == *old(self)
