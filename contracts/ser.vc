@@ schema.rs mod ser: C18
@verus
/// what a serializer is given: as V, with objects in the order of their entries
pub enum O { Null, Bool(bool), Num(int), Str(Seq<char>), Arr(Seq<O>), Obj(Seq<(Seq<char>, O)>) }
/// a value as it is stored (the entries of its objects in their order)
pub uninterp spec fn stored(x: Value) -> O;
pub open spec fn stored_e(e: (Str, Value)) -> (Str, O) { (e.0, stored(e.1)) }
pub broadcast axiom fn ax_stored(x: Value)
  ensures #[trigger] stored(x) == (match x {
    Value::Null => O::Null, Value::Bool(b) => O::Bool(b), Value::Number(n) => O::Num(numview(n)), Value::String(s) => O::Str(s@),
    Value::Array(a) => O::Arr(a@.map_values(|y: Value| stored(y))),
    Value::Object(m) => O::Obj(entries(m).map_values(|e: (Str, Value)| stored_e(e))) });
pub open spec fn ordered(x: OrderedKeywordWrapper) -> O { ord(x.no_reorder, stored(*x.value)) }

// ---- std: arrays of texts
pub open spec fn strs(s: Seq<&str>) -> Seq<Str> { s.map_values(|x: &str| x@) }
pub trait VContains { fn v_contains(&self, a: &&str) -> (r: bool); }
impl<const N: usize> VContains for [&'static str; N] {
  #[verifier::external_body]
  fn v_contains(&self, a: &&str) -> (r: bool) ensures r == strs(self@).contains(a@) { self.contains(a) }
}
pub trait VStarts { fn v_starts_with(&self, a: &str) -> (r: bool); }
impl VStarts for str {
  #[verifier::external_body]
  fn v_starts_with(&self, a: &str) -> (r: bool) ensures r == a@.is_prefix_of(self@) { self.starts_with(a) }
}

// ---- serde: whatever the format, a serializer that succeeds was given the value
pub uninterp spec fn got<T>(ok: T) -> O;
/// what serializing a value gives to the serializer (the contract of its Serialize impl)
pub trait Out { spec fn out(&self) -> O; }
pub trait Serializer: Sized {
  type Ok; type Error;
  type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
  type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
  fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
    ensures r is Ok ==> r->Ok_0.sofar() == Seq::<O>::empty();
  fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
    ensures r is Ok ==> r->Ok_0.sofar() == Seq::<(Str, O)>::empty();
}
pub trait SerializeSeq: Sized {
  type Ok; type Error;
  spec fn sofar(&self) -> Seq<O>;
  fn serialize_element<T: ?Sized + Out>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
    ensures r is Ok ==> final(self).sofar() == old(self).sofar().push(value.out());
  fn end(self) -> (r: Result<Self::Ok, Self::Error>)
    ensures r is Ok ==> got(r->Ok_0) == O::Arr(self.sofar());
}
pub trait SerializeMap: Sized {
  type Ok; type Error;
  spec fn sofar(&self) -> Seq<(Str, O)>;
  fn serialize_entry<K: ?Sized + KeyText, T: ?Sized + Out>(&mut self, key: &K, value: &T) -> (r: Result<(), Self::Error>)
    ensures r is Ok ==> final(self).sofar() == old(self).sofar().push((key.text(), value.out()));
  fn end(self) -> (r: Result<Self::Ok, Self::Error>)
    ensures r is Ok ==> got(r->Ok_0) == O::Obj(self.sofar());
}
pub trait KeyText { spec fn text(&self) -> Str; }
impl KeyText for str { open spec fn text(&self) -> Str { self@ } }
impl KeyText for String { open spec fn text(&self) -> Str { self@ } }
impl Out for Value { open spec fn out(&self) -> O { stored(*self) } }
pub trait VSerialize { fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>); }
impl VSerialize for Value {
  #[verifier::external_body]
  fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
    ensures r is Ok ==> got(r->Ok_0) == stored(*self)
  { unimplemented!() }
}

// ---- the order
pub open spec fn start_kws() -> Seq<Str> { seq!["$id"@, "$schema"@, "title"@, "description"@, "type"@, "format"@, "properties"@] }
pub open spec fn end_kws() -> Seq<Str> { seq!["$defs"@, "definitions"@] }
/// keywords whose value is a plain value
pub open spec fn plain(k: Str) -> bool { k == "examples"@ || k == "default"@ || "x-"@.is_prefix_of(k) }
/// keywords whose value is a map of schemas
pub open spec fn schema_map(k: Str) -> bool { k == "properties"@ || k == "patternProperties"@ || k == "dependentSchemas"@ || k == "$defs"@ || k == "definitions"@ }
pub open spec fn below_o(x: O, v: O) -> bool { decreases_to!(v => x) }
pub open spec fn has(e: Seq<(Str, O)>, k: Str) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k }
pub open spec fn one(e: Seq<(Str, O)>, k: Str) -> Seq<(Str, O)> { if has(e, k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; seq![e[i]] } else { Seq::empty() } }
/// the entries named by the first n of ks, in the order of ks
pub open spec fn picks(e: Seq<(Str, O)>, ks: Seq<Str>, n: int) -> Seq<(Str, O)> decreases n { if n <= 0 { Seq::empty() } else { picks(e, ks, n - 1) + one(e, ks[n - 1]) } }
pub open spec fn special(k: Str) -> bool { start_kws().contains(k) || end_kws().contains(k) }
/// the others of the first n entries, in their own order
pub open spec fn mid(e: Seq<(Str, O)>, n: int) -> Seq<(Str, O)> decreases n { if n <= 0 { Seq::empty() } else if special(e[n - 1].0) { mid(e, n - 1) } else { mid(e, n - 1).push(e[n - 1]) } }
pub open spec fn arrange(e: Seq<(Str, O)>) -> Seq<(Str, O)> { picks(e, start_kws(), 7) + mid(e, e.len() as int) + picks(e, end_kws(), 2) }
pub open spec fn ord(raw: bool, o: O) -> O decreases o {
  match o {
    O::Arr(a) => O::Arr(a.map_values(|x: O| if below_o(x, o) { ord(false, x) } else { x })),
    O::Obj(e) => if raw { O::Obj(e.map_values(|p: (Str, O)| (p.0, if below_o(p.1, o) { ord(false, p.1) } else { p.1 }))) }
      else { O::Obj(arrange(e.map_values(|p: (Str, O)| (p.0, if plain(p.0) { p.1 } else if below_o(p.1, o) { ord(schema_map(p.0), p.1) } else { p.1 })))) },
    _ => o,
  }
}
/// the entry of a schema object / of a map of schemas
pub open spec fn ord_e(p: (Str, O)) -> (Str, O) { (p.0, if plain(p.0) { p.1 } else { ord(schema_map(p.0), p.1) }) }
pub open spec fn ord_r(p: (Str, O)) -> (Str, O) { (p.0, ord(false, p.1)) }
pub open spec fn es(e: Seq<(Str, O)>) -> Seq<(Str, O)> { e.map_values(|p: (Str, O)| ord_e(p)) }
pub open spec fn rs(e: Seq<(Str, O)>) -> Seq<(Str, O)> { e.map_values(|p: (Str, O)| ord_r(p)) }
pub proof fn lemma_below_a(o: O, i: int)
  requires o is Arr, 0 <= i < o->Arr_0.len()
  ensures below_o(o->Arr_0[i], o)
{ match o { O::Arr(a) => { assert(decreases_to!(o => a)); assert(decreases_to!(a => a[i])); } _ => {} } }
pub proof fn lemma_below_e(o: O, i: int)
  requires o is Obj, 0 <= i < o->Obj_0.len()
  ensures below_o(o->Obj_0[i].1, o)
{ match o { O::Obj(e) => { assert(decreases_to!(o => e)); assert(decreases_to!(e => e[i])); let p = e[i]; assert(decreases_to!(p => p.1)); } _ => {} } }
pub broadcast proof fn lemma_arrange_ext(a: Seq<(Str, O)>, b: Seq<(Str, O)>)
  requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i]
  ensures #[trigger] arrange(a) == #[trigger] arrange(b)
{ assert(a =~= b); }
pub proof fn lemma_ord(o: O)
  ensures o is Arr ==> ord(false, o) == O::Arr(o->Arr_0.map_values(|x: O| ord(false, x))) && ord(true, o) == ord(false, o),
    o is Obj ==> ord(false, o) == O::Obj(arrange(es(o->Obj_0))) && ord(true, o) == O::Obj(rs(o->Obj_0)),
    !(o is Arr) && !(o is Obj) ==> ord(false, o) == o && ord(true, o) == o,
{
  match o {
    O::Arr(a) => {
      assert forall|i: int| 0 <= i < a.len() implies below_o(#[trigger] a[i], o) by { lemma_below_a(o, i); }
      assert(ord(false, o)->Arr_0 =~= a.map_values(|x: O| ord(false, x)));
      assert(ord(true, o)->Arr_0 =~= a.map_values(|x: O| ord(false, x)));
    }
    O::Obj(e) => {
      assert forall|i: int| 0 <= i < e.len() implies below_o((#[trigger] e[i]).1, o) by { lemma_below_e(o, i); }
      assert(ord(true, o)->Obj_0 =~= rs(e));
      let g = e.map_values(|p: (Str, O)| (p.0, if plain(p.0) { p.1 } else if below_o(p.1, o) { ord(schema_map(p.0), p.1) } else { p.1 }));
      assert(g =~= es(e));
      broadcast use lemma_arrange_ext;
    }
    _ => {}
  }
}
@constspec schema.rs ser / ORDERED_KEYWORDS_START
@constspec schema.rs ser / ORDERED_KEYWORDS_END
@verus
pub proof fn lemma_kw_lists()
  ensures spec_ORDERED_KEYWORDS_START() == start_kws(), spec_ORDERED_KEYWORDS_END() == end_kws(), start_kws().len() == 7, end_kws().len() == 2
{ assert(spec_ORDERED_KEYWORDS_START() =~= start_kws()); assert(spec_ORDERED_KEYWORDS_END() =~= end_kws()); }
@type schema.rs ser / OrderedKeywordWrapper
@verus
pub open spec fn stored_es(m: Map<String, Value>) -> Seq<(Str, O)> { entries(m).map_values(|e: (Str, Value)| stored_e(e)) }
pub open spec fn ord_a(q: Seq<&Value>, n: int) -> Seq<O> { q.take(n).map_values(|x: &Value| ord(false, stored(*x))) }
pub open spec fn ord_ents(q: Seq<(&String, &Value)>, n: int) -> Seq<(Str, O)> { q.take(n).map_values(|e: (&String, &Value)| (e.0@, ord(false, stored(*e.1)))) }
pub open spec fn key_at(q: Seq<&str>, i: int) -> Str { q[i]@ }
/// looking a keyword up finds its entry
pub proof fn lemma_pick(m: Map<String, Value>, k: Str)
  ensures one(es(stored_es(m)), k) == (if mv(m).dom().contains(k) { seq![ord_e((k, stored(entry(m, k))))] } else { Seq::empty() })
{
  ax_entries(m); ax_mkeys(m);
  let e = es(stored_es(m));
  assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0 == mkeys(m)[i] && e[i] == ord_e((mkeys(m)[i], stored(entry(m, mkeys(m)[i])))) by { let x = entries(m)[i]; assert(stored_es(m)[i] == stored_e(x)); }
  if mv(m).dom().contains(k) { let i = midx(m, k); lemma_midx(m, k); assert(e[i].0 == k); }
  else { assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0 != k by { assert(mkeys(m).contains(mkeys(m)[i])); assert(mkeys(m).to_set().contains(mkeys(m)[i])); } }
}
impl Out for OrderedKeywordWrapper<'_> { open spec fn out(&self) -> O { ordered(*self) } }
@fn schema.rs mod ser / impl From<&Value> for OrderedKeywordWrapper / from
@kind method
@spec
  ensures ret.value == value, !ret.no_reorder
@fn schema.rs mod ser / impl Serialize for OrderedKeywordWrapper / serialize / serialize_schema_property
@kind free
@sig fn serialize_schema_property<S: Serializer>(map: &mut S::SerializeMap, key: &str, value: &Value) -> (r: Result<(), S::Error>)
@spec
  ensures r is Ok ==> final(map).sofar() == old(map).sofar().push(ord_e((key@, stored(*value))))
@fn schema.rs mod ser / impl Serialize for OrderedKeywordWrapper / serialize
@kind method
@nloops 5
@spec
  ensures ret is Ok ==> got(ret->Ok_0) == ordered(*self)
@start
broadcast use ax_stored;
let ghost o = stored(*self.value);
proof { lemma_ord(o); lemma_kw_lists(); }
@loop 0
  invariant it0.seq() == __q0, seq.sofar() =~= ord_a(__q0, it0.index())
@loop 1
  invariant it1.seq() == __q1, map.sofar() =~= ord_ents(__q1, it1.index())
@afterloop 0
proof {
  assert forall|i: int| 0 <= i < __q0.len() implies (*#[trigger] __q0[i]) == array@[i] by { assert(derefs(__q0)[i] == array@[i]); }
  assert(seq.sofar() =~= o->Arr_0.map_values(|x: O| ord(false, x)));
}
@afterloop 1
proof {
  assert forall|i: int| 0 <= i < __q1.len() implies ((#[trigger] __q1[i]).0@, *__q1[i].1) == entries(*object)[i] by { assert(ents(__q1)[i] == entries(*object)[i]); }
  assert(map.sofar() =~= rs(o->Obj_0));
}
@afterloop 4
proof { assert(o->Obj_0 == stored_es(*object)); }
@loop 2
  invariant it2.seq() == __q2, strs(__q2) == start_kws(), map.sofar() == picks(es(stored_es(*object)), start_kws(), it2.index())
@loopstart 2
proof { lemma_pick(*object, key_at(__q2, it2.index())); assert(strs(__q2)[it2.index()] == __q2[it2.index()]@); }
@loop 3
  invariant it3.seq() == __q3, ents(__q3) == entries(*object), map.sofar() == picks(es(stored_es(*object)), start_kws(), 7) + mid(es(stored_es(*object)), it3.index())
@loopstart 3
proof { assert(ents(__q3)[it3.index()] == ((*__q3[it3.index()].0)@, *__q3[it3.index()].1)); }
@loop 4
  invariant it4.seq() == __q4, strs(__q4) == end_kws(), map.sofar() == picks(es(stored_es(*object)), start_kws(), 7) + mid(es(stored_es(*object)), es(stored_es(*object)).len() as int) + picks(es(stored_es(*object)), end_kws(), it4.index())
@loopstart 4
proof { lemma_pick(*object, key_at(__q4, it4.index())); assert(strs(__q4)[it4.index()] == __q4[it4.index()]@); }
@fn schema.rs impl Serialize for Schema / serialize
@kind method
@spec
  ensures ret is Ok ==> got(ret->Ok_0) == ord(false, stored(self.0))
@verus
// ---- what parsing the output gives back
pub open spec fn uniq(e: Seq<(Str, O)>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0 }
/// o, read as a value, is v: the same elements, the same entries (each once), the same leaves
pub open spec fn same(o: O, v: V) -> bool decreases o {
  match o {
    O::Null => v == V::Null, O::Bool(b) => v == V::Bool(b), O::Num(n) => v == V::Num(n), O::Str(s) => v == V::Str(s),
    O::Arr(a) => v is Arr && v->Arr_0.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> below_o(#[trigger] a[i], o) && same(a[i], v->Arr_0[i]),
    O::Obj(e) => v is Obj && uniq(e) && (forall|k: Str| v->Obj_0.dom().contains(k) ==> #[trigger] has(e, k))
      && forall|i: int| 0 <= i < e.len() ==> below_o((#[trigger] e[i]).1, o) && v->Obj_0.dom().contains(e[i].0) && same(e[i].1, v->Obj_0[e[i].0]),
  }
}
pub proof fn lemma_stored(o: O, x: Value)
  requires o == stored(x)
  ensures same(o, vv(x))
  decreases o
{
  broadcast use ax_stored;
  match x {
    Value::Array(a) => {
      let s = o->Arr_0;
      assert forall|i: int| 0 <= i < s.len() implies below_o(#[trigger] s[i], o) && same(s[i], av(a@)[i]) by { lemma_below_a(o, i); lemma_stored(s[i], a@[i]); }
    }
    Value::Object(m) => {
      let e = o->Obj_0;
      ax_entries(m); ax_mkeys(m);
      assert forall|i: int| 0 <= i < e.len() implies below_o((#[trigger] e[i]).1, o) && mv(m).dom().contains(e[i].0) && same(e[i].1, mv(m)[e[i].0]) by {
        lemma_below_e(o, i); let x = entries(m)[i]; assert(mkeys(m)[i] == x.0); assert(mkeys(m).contains(x.0)); assert(mkeys(m).to_set().contains(x.0)); lemma_stored(e[i].1, x.1);
      }
      assert forall|k: Str| mv(m).dom().contains(k) implies #[trigger] has(e, k) by { lemma_midx(m, k); assert(e[midx(m, k)].0 == entries(m)[midx(m, k)].0); }
      assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by { assert(entries(m)[i].0 == mkeys(m)[i]); assert(entries(m)[j].0 == mkeys(m)[j]); }
    }
    _ => {}
  }
}
pub proof fn lemma_one(e: Seq<(Str, O)>, k: Str)
  requires uniq(e)
  ensures forall|p: (Str, O)| #[trigger] one(e, k).contains(p) <==> e.contains(p) && p.0 == k, one(e, k).len() <= 1
{
  if has(e, k) {
    let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k;
    assert(one(e, k)[0] == e[i]);
    assert forall|p: (Str, O)| #[trigger] one(e, k).contains(p) <==> e.contains(p) && p.0 == k by {
      if e.contains(p) && p.0 == k { let j = choose|j: int| 0 <= j < e.len() && e[j] == p; assert(e[j].0 == k); assert(i == j); }
    }
  } else {
    assert forall|p: (Str, O)| !(e.contains(p) && p.0 == k) by { if e.contains(p) && p.0 == k { let j = choose|j: int| 0 <= j < e.len() && e[j] == p; assert(e[j].0 == k); } }
  }
}
pub open spec fn disjoint_keys(a: Seq<(Str, O)>, b: Seq<(Str, O)>) -> bool { forall|p: (Str, O), q: (Str, O)| #[trigger] a.contains(p) && #[trigger] b.contains(q) ==> p.0 != q.0 }
pub proof fn lemma_cat(a: Seq<(Str, O)>, b: Seq<(Str, O)>)
  requires uniq(a), uniq(b), disjoint_keys(a, b)
  ensures uniq(a + b), forall|p: (Str, O)| #[trigger] (a + b).contains(p) <==> a.contains(p) || b.contains(p)
{
  let c = a + b;
  assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0 != (#[trigger] c[j]).0 by { if i < a.len() && j >= a.len() { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); } }
  assert forall|p: (Str, O)| #[trigger] c.contains(p) <==> a.contains(p) || b.contains(p) by {
    if a.contains(p) { let i = choose|i: int| 0 <= i < a.len() && a[i] == p; assert(c[i] == p); }
    if b.contains(p) { let i = choose|i: int| 0 <= i < b.len() && b[i] == p; assert(c[a.len() + i] == p); }
    if c.contains(p) { let i = choose|i: int| 0 <= i < c.len() && c[i] == p; if i < a.len() { assert(a[i] == p); } else { assert(b[i - a.len()] == p); } }
  }
}
pub proof fn lemma_picks(e: Seq<(Str, O)>, ks: Seq<Str>, n: int)
  requires uniq(e), 0 <= n <= ks.len(), ks.no_duplicates()
  ensures uniq(picks(e, ks, n)), forall|p: (Str, O)| #[trigger] picks(e, ks, n).contains(p) <==> e.contains(p) && ks.take(n).contains(p.0)
  decreases n
{
  if n > 0 {
    lemma_picks(e, ks, n - 1);
    lemma_one(e, ks[n - 1]);
    let a = picks(e, ks, n - 1); let b = one(e, ks[n - 1]);
    assert(ks.take(n) =~= ks.take(n - 1).push(ks[n - 1]));
    assert forall|k: Str| ks.take(n).contains(k) <==> ks.take(n - 1).contains(k) || k == ks[n - 1] by {
      let t = ks.take(n); let u = ks.take(n - 1);
      if u.contains(k) { let i = choose|i: int| 0 <= i < u.len() && u[i] == k; assert(t[i] == k); }
      if k == ks[n - 1] { assert(t[n - 1] == k); }
      if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; if i < n - 1 { assert(u[i] == k); } }
    }
    assert(disjoint_keys(a, b)) by {
      assert forall|p: (Str, O), q: (Str, O)| #[trigger] a.contains(p) && #[trigger] b.contains(q) implies p.0 != q.0 by {
        let u = ks.take(n - 1); let i = choose|i: int| 0 <= i < u.len() && u[i] == p.0; assert(ks[i] == p.0);
      }
    }
    lemma_cat(a, b);
  } else { assert(ks.take(n).len() == 0); }
}
pub proof fn lemma_mid(e: Seq<(Str, O)>, n: int)
  requires uniq(e), 0 <= n <= e.len()
  ensures uniq(mid(e, n)), forall|p: (Str, O)| #[trigger] mid(e, n).contains(p) <==> e.take(n).contains(p) && !special(p.0)
  decreases n
{
  if n > 0 {
    lemma_mid(e, n - 1);
    let x = e[n - 1]; let a = mid(e, n - 1); let t = e.take(n); let u = e.take(n - 1);
    assert forall|p: (Str, O)| t.contains(p) <==> u.contains(p) || p == x by {
      if u.contains(p) { let i = choose|i: int| 0 <= i < u.len() && u[i] == p; assert(t[i] == p); }
      if p == x { assert(t[n - 1] == p); }
      if t.contains(p) { let i = choose|i: int| 0 <= i < t.len() && t[i] == p; if i < n - 1 { assert(u[i] == p); } }
    }
    if !special(x.0) {
      let b = seq![x];
      assert forall|p: (Str, O)| #[trigger] b.contains(p) <==> p == x by { if p == x { assert(b[0] == p); } }
      assert forall|p: (Str, O), q: (Str, O)| #[trigger] a.contains(p) && #[trigger] b.contains(q) implies p.0 != q.0 by { let i = choose|i: int| 0 <= i < u.len() && u[i] == p; assert(e[i].0 != e[n - 1].0); }
      lemma_cat(a, b);
      assert(a + b =~= mid(e, n));
    }
  } else { assert(e.take(n).len() == 0); }
}
/// arranging keeps every entry, once
pub proof fn lemma_arrange(e: Seq<(Str, O)>)
  requires uniq(e)
  ensures uniq(arrange(e)), forall|p: (Str, O)| #[trigger] arrange(e).contains(p) <==> e.contains(p)
{
  lemma_kwid(); lemma_kw_distinct();
  let s = start_kws(); let d = end_kws();
  lemma_picks(e, s, 7); lemma_mid(e, e.len() as int); lemma_picks(e, d, 2);
  assert(s.take(7) =~= s); assert(d.take(2) =~= d); assert(e.take(e.len() as int) =~= e);
  let a = picks(e, s, 7); let b = mid(e, e.len() as int); let c = picks(e, d, 2);
  lemma_cat(a, b);
  lemma_cat(a + b, c);
}
pub proof fn lemma_kw_distinct()
  ensures start_kws().no_duplicates(), end_kws().no_duplicates(), forall|k: Str| start_kws().contains(k) ==> !#[trigger] end_kws().contains(k)
{ lemma_kwid(); }
/// reordering changes nothing that reading it back can see
pub proof fn lemma_ord_same(raw: bool, o: O, v: V)
  requires same(o, v)
  ensures same(ord(raw, o), v)
  decreases o
{
  lemma_ord(o);
  let r = ord(raw, o);
  match o {
    O::Arr(a) => {
      let b = r->Arr_0;
      assert forall|i: int| 0 <= i < b.len() implies below_o(#[trigger] b[i], r) && same(b[i], v->Arr_0[i]) by { lemma_below_a(r, i); assert(below_o(a[i], o)); lemma_ord_same(false, a[i], v->Arr_0[i]); }
    }
    O::Obj(e) => {
      let m = v->Obj_0;
      let g = if raw { rs(e) } else { es(e) };
      assert forall|i: int| 0 <= i < g.len() implies m.dom().contains((#[trigger] g[i]).0) && same(g[i].1, m[g[i].0]) && g[i].0 == e[i].0 by {
        assert(below_o(e[i].1, o));
        lemma_ord_same(false, e[i].1, m[e[i].0]); lemma_ord_same(schema_map(e[i].0), e[i].1, m[e[i].0]);
      }
      assert(uniq(g)) by { assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).0 != (#[trigger] g[j]).0 by { assert(e[i].0 != e[j].0); } }
      lemma_arrange(g);
      let b = r->Obj_0;
      assert forall|p: (Str, O)| #[trigger] b.contains(p) <==> g.contains(p) by {}
      assert forall|i: int| 0 <= i < b.len() implies below_o((#[trigger] b[i]).1, r) && m.dom().contains(b[i].0) && same(b[i].1, m[b[i].0]) by {
        lemma_below_e(r, i); assert(b.contains(b[i])); let j = choose|j: int| 0 <= j < g.len() && g[j] == b[i]; assert(g[j] == b[i]);
      }
      assert forall|k: Str| m.dom().contains(k) implies #[trigger] has(b, k) by {
        assert(has(e, k)); let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == k; assert(g[j].0 == k); assert(g.contains(g[j])); assert(b.contains(g[j]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == g[j]; assert(b[i].0 == k);
      }
    }
    _ => {}
  }
}
/// C18: whatever the serializer, if serializing succeeds it was given a document that reads back as the same schema,
/// whose leading keywords come first, in their order, the definitions last, and plain values as they are stored
pub proof fn theorem_serialize(x: Value)
  ensures same(ord(false, stored(x)), vv(x)),
    x is Object ==> exists|a: Seq<(Str, O)>, b: Seq<(Str, O)>, c: Seq<(Str, O)>| #[trigger] (a + b + c) == ord(false, stored(x))->Obj_0
      && (forall|i: int| 0 <= i < b.len() ==> !special((#[trigger] b[i]).0)) && in_order(a, start_kws()) && in_order(c, end_kws()),
    x is Object ==> forall|i: int| 0 <= i < ord(false, stored(x))->Obj_0.len() && plain((#[trigger] ord(false, stored(x))->Obj_0[i]).0) ==> stored(x)->Obj_0.contains(ord(false, stored(x))->Obj_0[i])
{
  broadcast use ax_stored;
  let o = stored(x);
  lemma_stored(o, x);
  lemma_ord_same(false, o, vv(x));
  lemma_ord(o);
  if x is Object {
    let e = o->Obj_0;
    let g = es(e);
    assert(uniq(g)) by { assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).0 != (#[trigger] g[j]).0 by { assert(e[i].0 != e[j].0); } }
    let a = picks(g, start_kws(), 7); let b = mid(g, g.len() as int); let c = picks(g, end_kws(), 2);
    lemma_mid(g, g.len() as int); lemma_kw_distinct();
    assert forall|i: int| 0 <= i < b.len() implies !special((#[trigger] b[i]).0) by { assert(b.contains(b[i])); }
    lemma_in_order(g, start_kws(), 7); lemma_in_order(g, end_kws(), 2);
    assert(start_kws().take(7) =~= start_kws()); assert(end_kws().take(2) =~= end_kws());
    let r = ord(false, o)->Obj_0;
    assert(r == a + b + c);
    lemma_arrange(g);
    assert forall|i: int| 0 <= i < r.len() && plain((#[trigger] r[i]).0) implies e.contains(r[i]) by { assert(r.contains(r[i])); let j = choose|j: int| 0 <= j < g.len() && g[j] == r[i]; assert(g[j] == ord_e(e[j])); assert(e[j] == r[i]); }
  }
}
/// the keys of e appear in the order of ks, each at most once, and are among them
pub open spec fn in_order(e: Seq<(Str, O)>, ks: Seq<Str>) -> bool {
  &&& forall|i: int| 0 <= i < e.len() ==> ks.contains((#[trigger] e[i]).0)
  &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> ks.index_of((#[trigger] e[i]).0) < ks.index_of((#[trigger] e[j]).0)
}
pub proof fn lemma_in_order(e: Seq<(Str, O)>, ks: Seq<Str>, n: int)
  requires uniq(e), 0 <= n <= ks.len(), ks.no_duplicates()
  ensures in_order(picks(e, ks, n), ks), forall|i: int| 0 <= i < picks(e, ks, n).len() ==> ks.index_of((#[trigger] picks(e, ks, n)[i]).0) < n
  decreases n
{
  if n > 0 {
    lemma_in_order(e, ks, n - 1);
    lemma_one(e, ks[n - 1]);
    let a = picks(e, ks, n - 1); let b = one(e, ks[n - 1]); let c = picks(e, ks, n);
    assert(ks.contains(ks[n - 1]));
    assert(ks.index_of(ks[n - 1]) == n - 1);
    assert forall|i: int| 0 <= i < c.len() implies ks.contains((#[trigger] c[i]).0) && ks.index_of(c[i].0) < n && (i < a.len() ==> ks.index_of(c[i].0) < n - 1) && (i >= a.len() ==> c[i].0 == ks[n - 1]) by {
      if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); assert(b.contains(b[i - a.len()])); }
    }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies ks.index_of((#[trigger] c[i]).0) < ks.index_of((#[trigger] c[j]).0) by { if j < a.len() { assert(c[i] == a[i]); assert(c[j] == a[j]); } }
  }
}
