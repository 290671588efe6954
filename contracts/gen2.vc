@@ generate.rs: names, references and definitions (C03, C04)
@verus
pub type CowStr = Cow<'static, str>;
@type generate.rs Contract
@type generate.rs SchemaUid
@verus
pub type Uid = (Str, bool);
pub open spec fn uv(u: SchemaUid) -> Uid { (cowv(u.0), u.1 is Serialize) }
impl Clone for Contract {
  fn clone(&self) -> (r: Contract) ensures r == *self { match self { Contract::Deserialize => Contract::Deserialize, Contract::Serialize => Contract::Serialize } }
}
impl Clone for SchemaUid {
  // #[derive(Clone)]
  #[verifier::external_body]
  fn clone(&self) -> (r: SchemaUid) ensures uv(r) == uv(*self) { SchemaUid(self.0.clone(), self.1.clone()) }
}
pub trait CowView { spec fn cv(&self) -> Str; }
impl CowView for CowStr { open spec fn cv(&self) -> Str { cowv(*self) } }
pub open spec fn ocv(c: Option<CowStr>) -> Option<Str> { match c { Some(x) => Some(cowv(x)), None => None } }
pub uninterp spec fn cow_cloned<'a, B: ?Sized + ToOwned>(a: Cow<'a, B>, b: Cow<'a, B>) -> bool;
pub broadcast axiom fn ax_cow_cloned<'a>(a: Cow<'a, str>, b: Cow<'a, str>) ensures #[trigger] cow_cloned::<str>(a, b) ==> cowv(a) == cowv(b);
pub uninterp spec fn cow_is<'a, B: ?Sized + ToOwned>(a: Cow<'a, B>, b: &B) -> bool;
pub broadcast axiom fn ax_cow_is<'a>(a: Cow<'a, str>, b: &str) ensures #[trigger] cow_is::<str>(a, b) ==> cowv(a) == b@;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned>[<Cow<'a, B> as std::ops::Deref>::deref](c: &'b Cow<'a, B>) -> (r: &'b B) ensures cow_is(*c, r);
pub assume_specification<'a, B: ?Sized + ToOwned>[<Cow<'a, B> as Clone>::clone](c: &Cow<'a, B>) -> (r: Cow<'a, B>) ensures cow_cloned(r, *c);
impl VInto<String> for CowStr { open spec fn vi(self, r: String) -> bool { r@ == cowv(self) } #[verifier::external_body] fn v_into(self) -> (r: String) { self.into() } }
impl VInto<CowStr> for String { open spec fn vi(self, r: CowStr) -> bool { cowv(r) == self@ } #[verifier::external_body] fn v_into(self) -> (r: CowStr) { self.into() } }
impl VInto<Value> for CowStr { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Str(cowv(self)) } #[verifier::external_body] fn v_into(self) -> (r: Value) { self.into() } }
impl<'a> VFmtS for Cow<'a, str> { open spec fn fs(&self) -> Str { cowv(*self) } #[verifier::external_body] fn v_display(&self) -> (r: String) { self.to_string() } }
pub trait VAsRef { fn v_as_ref(&self) -> (r: &str); }
impl VAsRef for CowStr { #[verifier::external_body] fn v_as_ref(&self) -> (r: &str) ensures r@ == cowv(*self) { self.as_ref() } }
/// the sets and maps of the generator (std's BTreeSet/BTreeMap behind the operations used)
#[verifier::external_body]
pub struct VUidSet(std::collections::BTreeSet<(String, bool)>);
impl VUidSet {
  pub uninterp spec fn s(&self) -> ISet<Uid>;
  #[verifier::external_body] pub fn new() -> (r: VUidSet) ensures r.s() == ISet::<Uid>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, u: SchemaUid) -> (r: bool) ensures r == !old(self).s().contains(uv(u)), final(self).s() == old(self).s().insert(uv(u)) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, u: &SchemaUid) -> (r: bool) ensures r == old(self).s().contains(uv(*u)), final(self).s() == old(self).s().remove(uv(*u)) { unimplemented!() }
  #[verifier::external_body] pub fn v_contains(&self, u: &SchemaUid) -> (r: bool) ensures r == self.s().contains(uv(*u)) { unimplemented!() }
}
#[verifier::external_body]
pub struct VUidMap(std::collections::BTreeMap<(String, bool), String>);
impl VUidMap {
  pub uninterp spec fn m(&self) -> SMap<Uid, Str>;
  #[verifier::external_body] pub fn new() -> (r: VUidMap) ensures r.m() == SMap::<Uid, Str>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, u: SchemaUid, n: CowStr) -> (r: Option<CowStr>) ensures final(self).m() == old(self).m().insert(uv(u), cowv(n)) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, u: &SchemaUid) -> (r: Option<&CowStr>) ensures r.is_some() == self.m().dom().contains(uv(*u)), r matches Some(n) ==> cowv(*n) == self.m()[uv(*u)] { unimplemented!() }
}
#[verifier::external_body]
pub struct VNameSet(std::collections::BTreeSet<String>);
impl VNameSet {
  pub uninterp spec fn s(&self) -> ISet<Str>;
  #[verifier::external_body] pub fn new() -> (r: VNameSet) ensures r.s() == ISet::<Str>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, n: CowStr) -> (r: bool) ensures r == !old(self).s().contains(cowv(n)), final(self).s() == old(self).s().insert(cowv(n)) { unimplemented!() }
  #[verifier::external_body] pub fn v_contains<Q: VStrLike + ?Sized>(&self, n: &Q) -> (r: bool) ensures r == self.s().contains(n.txt()) { unimplemented!() }
}
impl PartialEq for SchemaUid {
  // #[derive(PartialEq)]
  #[verifier::external_body]
  fn eq(&self, o: &SchemaUid) -> bool { unimplemented!() }
}
pub open spec fn ouv(x: Option<&SchemaUid>) -> Option<Uid> { match x { Some(u) => Some(uv(*u)), None => None } }
pub axiom fn ax_eq_uid()
  ensures <Option<&SchemaUid> as vstd::std_specs::cmp::PartialEqSpec<Option<&SchemaUid>>>::obeys_eq_spec(),
   forall|a: Option<&SchemaUid>, b: Option<&SchemaUid>| #[trigger] <Option<&SchemaUid> as vstd::std_specs::cmp::PartialEqSpec<Option<&SchemaUid>>>::eq_spec(&a, &b) == (ouv(a) == ouv(b));
pub trait VCloned { fn v_cloned(self) -> Option<CowStr>; }
impl VCloned for Option<&CowStr> { #[verifier::external_body] fn v_cloned(self) -> (r: Option<CowStr>) ensures r.is_some() == self.is_some(), r matches Some(c) ==> cowv(c) == cowv(*self.unwrap()) { self.cloned() } }
pub trait VMapAppend { fn v_append(&mut self, o: &mut Map<String, Value>); }
impl VMapAppend for Map<String, Value> { #[verifier::external_body] fn v_append(&mut self, o: &mut Map<String, Value>) ensures mv(*final(self)) == mv(*old(self)).union_prefer_right(mv(*old(o))), mv(*final(o)) == SMap::<Str, V>::empty() { self.append(o) } }
/// a Box<dyn GenTransform>; what it does to a schema is left open
#[verifier::external_body]
pub struct VTransform(u8);
impl VTransform {
  pub uninterp spec fn rel(&self, v: V, w: V) -> bool;
  #[verifier::external_body] pub fn transform(&mut self, schema: &mut Schema) requires is_schema(sv(*old(schema))) ensures is_schema(sv(*final(schema))), old(self).rel(sv(*old(schema)), sv(*final(schema))) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_as_mut(x: &mut VTransform) -> (r: &mut VTransform) ensures *r == *old(x) { unimplemented!() }
pub open spec fn derefm<T>(s: Seq<&mut T>) -> Seq<T> { s.map_values(|x: &mut T| *x) }
pub trait VTransforms { spec fn q(&self) -> Seq<VTransform>; fn vs_iter_mut(&mut self) -> (r: Vec<&mut VTransform>) ensures derefm(r@) == old(self).q(), final(self).q().len() == old(self).q().len(); }
impl VTransforms for Vec<VTransform> {
  open spec fn q(&self) -> Seq<VTransform> { self@ }
  #[verifier::external_body]
  fn vs_iter_mut(&mut self) -> (r: Vec<&mut VTransform>) { unimplemented!() }
}
@type generate.rs SchemaSettings | Vec<Box<dyn GenTransform>> => Vec<VTransform>
@type generate.rs SchemaGenerator | BTreeSet<SchemaUid> => VUidSet | BTreeMap<SchemaUid, CowStr> => VUidMap | BTreeSet<CowStr> => VNameSet
@verus
pub open spec fn uvs(s: Seq<SchemaUid>) -> Seq<Uid> { s.map_values(|u: SchemaUid| uv(u)) }
impl SchemaGenerator {
  pub open spec fn defs(&self) -> VM { mv(self.definitions) }
  pub open spec fn pending(&self) -> ISet<Uid> { self.pending_schema_ids.s() }
  pub open spec fn names(&self) -> SMap<Uid, Str> { self.schema_id_to_name.m() }
  pub open spec fn used(&self) -> ISet<Str> { self.used_schema_names.s() }
  pub open spec fn stack(&self) -> Seq<Uid> { uvs(self.root_schema_id_stack@) }
  pub open spec fn wf(&self) -> bool { names_wf(self.names(), self.used()) }
}
/// every name handed out is marked as used, and none was handed out twice
pub open spec fn names_wf(names: SMap<Uid, Str>, used: ISet<Str>) -> bool {
  &&& forall|u: Uid| names.dom().contains(u) ==> used.contains(#[trigger] names[u])
  &&& forall|u: Uid, w: Uid| names.dom().contains(u) && names.dom().contains(w) && u != w ==> #[trigger] names[u] != #[trigger] names[w]
}
pub proof fn lemma_new_name(names: SMap<Uid, Str>, used: ISet<Str>, u: Uid, n: Str)
  requires names_wf(names, used), !used.contains(n), !names.dom().contains(u)
  ensures names_wf(names.insert(u, n), used.insert(n))
{
  let m = names.insert(u, n);
  assert forall|a: Uid, b: Uid| m.dom().contains(a) && m.dom().contains(b) && a != b implies #[trigger] m[a] != #[trigger] m[b] by {
    if a != u { assert(used.contains(names[a])); } if b != u { assert(used.contains(names[b])); }
    if a != u && b != u { assert(names[a] != names[b]); }
  }
  assert forall|a: Uid| m.dom().contains(a) implies used.insert(n).contains(#[trigger] m[a]) by { if a != u { assert(used.contains(names[a])); } }
}
pub open spec fn names_grow(a: SMap<Uid, Str>, b: SMap<Uid, Str>) -> bool { forall|u: Uid| #[trigger] a.dom().contains(u) ==> b.dom().contains(u) && b[u] == a[u] }
pub open spec fn used_grow(a: ISet<Str>, b: ISet<Str>) -> bool { forall|n: Str| #[trigger] a.contains(n) ==> b.contains(n) }
/// no definition goes or changes
pub open spec fn defs_grow(a: VM, b: VM) -> bool { forall|n: Str| #![trigger a.dom().contains(n)] #![trigger mget(a, n)] a.dom().contains(n) ==> mget(b, n) == mget(a, n) }
/// every name handed out has a definition
pub open spec fn closed(names: SMap<Uid, Str>, defs: VM) -> bool { forall|u: Uid| names.dom().contains(u) ==> defs.dom().contains(#[trigger] names[u]) }
pub broadcast proof fn lemma_closed_ins(names: SMap<Uid, Str>, m: VM, k: Str, x: V) ensures closed(names, m) ==> #[trigger] closed(names, m.insert(k, x)) { }
pub broadcast proof fn lemma_defs_ins(a: VM, b: VM, k: Str, x: V)
  ensures defs_grow(a, b) && !a.dom().contains(k) ==> #[trigger] defs_grow(a, b.insert(k, x)), defs_grow(a.insert(k, x), b) && !a.dom().contains(k) ==> defs_grow(a, b.insert(k, x)) {
  if !a.dom().contains(k) && defs_grow(a.insert(k, x), b) { assert forall|n: Str| a.dom().contains(n) implies mget(b, n) == mget(a, n) by { assert(mget(a.insert(k, x), n) == mget(a, n)); } }
}
/// what any use of the generator's API preserves
pub open spec fn grows(a: &SchemaGenerator, b: &SchemaGenerator) -> bool {
  &&& b.wf()
  &&& names_grow(a.names(), b.names())
  &&& used_grow(a.used(), b.used())
  &&& defs_grow(a.defs(), b.defs())
  &&& closed(a.names(), a.defs()) ==> closed(b.names(), b.defs())
  &&& b.pending() =~= a.pending()
  &&& b.settings.transforms.q().len() == a.settings.transforms.q().len()
  &&& b.stack() =~= a.stack()
  &&& b.settings.definitions_path.cv() == a.settings.definitions_path.cv() && ocv(b.settings.meta_schema) == ocv(a.settings.meta_schema) && b.settings.inline_subschemas == a.settings.inline_subschemas && b.settings.contract == a.settings.contract
}
/// nothing but the names may differ
pub open spec fn rest_same(a: &SchemaGenerator, b: &SchemaGenerator) -> bool {
  a.settings == b.settings && a.definitions == b.definitions && a.pending() == b.pending() && a.stack() == b.stack()
}
/// decimal digits
pub uninterp spec fn dec(i: int) -> Str;
impl VFmtS for i32 { open spec fn fs(&self) -> Str { dec(*self as int) } #[verifier::external_body] fn v_display(&self) -> (r: String) { self.to_string() } }
/// the preferred name, or else the preferred name followed by the smallest unused number from 2
pub open spec fn picked(base: Str, used: ISet<Str>, n: Str) -> bool {
  if !used.contains(base) { n == base } else { exists|k: int| k >= 2 && n == #[trigger] cand(base, k) && !used.contains(n) && forall|j: int| 2 <= j < k ==> used.contains(#[trigger] cand(base, j)) }
}
pub open spec fn cand(base: Str, k: int) -> Str { base + dec(k) }
pub open spec fn v_ref(s: Str) -> V { V::Obj(SMap::<Str, V>::empty().insert("$ref"@, V::Str(s))) }
/// the definitions path without a leading '#' and a trailing '/'
pub open spec fn unhash(s: Str) -> Str { if s.len() > 0 && s[0] == '#' { s.skip(1) } else { s } }
pub open spec fn stripped(s: Str) -> Str { let t = unhash(s); if t.len() > 0 && t.last() == '/' { t.drop_last() } else { t } }
/// r is a reference to the definition of that name
pub open spec fn ref_txt(path: Str, e: Str) -> Str { "#"@ + (path + ("/"@ + e)) }
pub broadcast proof fn lemma_cat3(a: Str, b: Str, c: Str) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_cat0(a: Str) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn lemma_cand(b: Str, k: int) ensures #[trigger] (b + dec(k)) == cand(b, k) { }
pub broadcast group group_cat { lemma_cand, lemma_cat3, lemma_cat0, ax_cow_cloned, ax_cow_is }
pub open spec fn is_def_ref(r: V, path: Str, name: Str) -> bool { exists|e: Str| #[trigger] enc(e, encode_utf8(name)) && r == v_ref(ref_txt(path, e)) }
pub struct FindRef { pub schema: Schema, pub name_to_be_inserted: Option<CowStr> }
pub trait JsonSchema {
  /// what the schema of the type may be
  spec fn js_ok(r: V) -> bool;
  spec fn js_inline() -> bool;
  spec fn js_id() -> Str;
  spec fn js_name(n: Str) -> bool;
  fn json_schema(generator: &mut SchemaGenerator) -> (ret: Schema)
    requires old(generator).wf()
    ensures is_schema(sv(ret)), Self::js_ok(sv(ret)), grows(&*old(generator), &*final(generator));
  fn inline_schema() -> (ret: bool) ensures ret == Self::js_inline();
  fn schema_id() -> (ret: CowStr) ensures cowv(ret) == Self::js_id();
  fn schema_name() -> (ret: CowStr) ensures Self::js_name(cowv(ret));
}
@fn generate.rs impl SchemaGenerator / definitions
@spec
  ensures ret == &self.definitions
@fn generate.rs impl SchemaGenerator / definitions_path_stripped
@spec
  ensures ret@ == stripped(self.settings.definitions_path.cv())
@start
broadcast use group_cat;
@fn generate.rs impl SchemaGenerator / schema_uid
@spec
  ensures uv(ret) == (T::js_id(), self.settings.contract is Serialize)
@fn generate.rs impl SchemaGenerator / json_schema_internal
@spec
  requires old(self).wf()
  ensures is_schema(sv(ret)), T::js_ok(sv(ret)), grows(&*old(self), &*final(self))
@fn generate.rs impl SchemaGenerator / insert_new_subschema_for
@spec
  requires old(self).wf(), !old(self).defs().dom().contains(cowv(name))
  ensures closed(old(self).names(), old(self).defs().insert(cowv(name), V::Null)) ==> closed(final(self).names(), final(self).defs()),
    grows(&*old(self), &*final(self)), final(self).defs().dom().contains(cowv(name)), T::js_ok(final(self).defs()[cowv(name)]), is_schema(final(self).defs()[cowv(name)])
@start
broadcast use group_cat, lemma_closed_ins, lemma_defs_ins;
let ghost g0 = *self;
proof {
  let k = cowv(name);
  assert forall|x: V, b: VM| #[trigger] defs_grow(g0.defs().insert(k, x), b) implies defs_grow(g0.defs(), b) by {
    assert forall|n: Str| g0.defs().dom().contains(n) implies mget(b, n) == mget(g0.defs(), n) by { assert(mget(g0.defs().insert(k, x), n) == mget(g0.defs(), n)); } }
  assert forall|x: V| closed(g0.names(), g0.defs().insert(k, V::Null)) implies closed(g0.names(), #[trigger] g0.defs().insert(k, x)) by { }
}
@verus
/// what find_ref does: u is the type's id, nm the names its schema_name may return
pub open spec fn by_ref(g: &SchemaGenerator, u: Uid, inline: bool) -> bool { !inline && (!g.settings.inline_subschemas || g.pending().contains(u)) }
pub open spec fn is_root(g: &SchemaGenerator, u: Uid) -> bool { g.stack().len() > 0 && g.stack().last() == u }
/// the names after one has been chosen for u
pub open spec fn named(a: &SchemaGenerator, b: &SchemaGenerator, u: Uid, base: Str) -> bool {
  let n = b.names()[u]; picked(base, a.used(), n) && b.names() == a.names().insert(u, n) && b.used() == a.used().insert(n)
}
@fn generate.rs impl SchemaGenerator / subschema_for / find_ref
@as find_ref
@kind free
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
@nloops 1
@spec
  requires old(this).wf(), schema_name.requires(())
  ensures final(this).wf(), rest_same(&*old(this), &*final(this)),
    names_grow(old(this).names(), final(this).names()), used_grow(old(this).used(), final(this).used()),
    ret matches Some(r) ==> is_schema(sv(r.schema)),
    ret.is_some() == by_ref(&*old(this), uv(*uid), inline_schema),
    ret is None || is_root(&*old(this), uv(*uid)) ==> final(this).names() == old(this).names() && final(this).used() == old(this).used(),
    ret matches Some(r) ==> if is_root(&*old(this), uv(*uid)) { sv(r.schema) == v_ref("#"@) && r.name_to_be_inserted is None } else {
      &&& if old(this).names().dom().contains(uv(*uid)) { final(this).names() == old(this).names() && final(this).used() == old(this).used() } else { exists|c: CowStr| #[trigger] schema_name.ensures((), c) && named(&*old(this), &*final(this), uv(*uid), cowv(c)) }
      &&& final(this).names().dom().contains(uv(*uid))
      &&& is_def_ref(sv(r.schema), stripped(old(this).settings.definitions_path.cv()), final(this).names()[uv(*uid)])
      &&& r.name_to_be_inserted.is_some() == !old(this).defs().dom().contains(final(this).names()[uv(*uid)])
      &&& r.name_to_be_inserted matches Some(n) ==> cowv(n) == final(this).names()[uv(*uid)]
    }
@start
let ghost g0 = *this;
broadcast use group_cat;
proof {
  ax_eq_uid(); reveal_strlit(""); reveal_strlit("#"); reveal_strlit("/");
  assert forall|n: Str| !g0.used().contains(n) && !g0.names().dom().contains(uv(*uid)) implies names_wf(#[trigger] g0.names().insert(uv(*uid), n), g0.used().insert(n)) by { lemma_new_name(g0.names(), g0.used(), uv(*uid), n); }
}
@loop 0
  invariant_except_break 2 <= __c0, forall|j: int| 2 <= j < __c0 ==> g0.used().contains(#[trigger] cand(cowv(base_name), j))
  invariant *this == g0, g0.used().contains(cowv(base_name))
  ensures picked(cowv(base_name), g0.used(), cowv(name))
@verus
/// a subschema for T, b being the generator afterwards
pub open spec fn sub_ok<T: ?Sized + JsonSchema>(a: &SchemaGenerator, b: &SchemaGenerator, r: V) -> bool {
  let u = (T::js_id(), a.settings.contract is Serialize);
  if !by_ref(a, u, T::js_inline()) { T::js_ok(r) }
  else if is_root(a, u) { r == v_ref("#"@) && rest_same(a, b) && a.names() == b.names() && a.used() == b.used() }
  else {
    &&& b.names().dom().contains(u)
    &&& is_def_ref(r, stripped(a.settings.definitions_path.cv()), b.names()[u])
    &&& b.defs().dom().contains(b.names()[u])
    // a name once handed out is kept; a new one is the preferred name, or the first free numbered one
    &&& !a.names().dom().contains(u) ==> exists|base: Str| #[trigger] T::js_name(base) && picked(base, a.used(), b.names()[u])
    // a definition that is there already is not generated again; a new one is what the type's implementation returned
    &&& if a.defs().dom().contains(b.names()[u]) { rest_same(a, b) } else { T::js_ok(b.defs()[b.names()[u]]) && is_schema(b.defs()[b.names()[u]]) }
  }
}
@fn generate.rs impl SchemaGenerator / subschema_for
@spec
  requires old(self).wf()
  ensures is_schema(sv(ret)), grows(&*old(self), &*final(self)), sub_ok::<T>(&*old(self), &*final(self), sv(ret))
@start
let ghost g0 = *self;
proof { assert(T::schema_name.requires(())); }
@fn generate.rs impl SchemaGenerator / add_definitions
@spec
  ensures *final(self) == *old(self), ({ let p = stripped(old(self).settings.definitions_path.cv()); let m = mv(*old(schema_object));
    mv(*final(schema_object)) == if mv(definitions).dom().len() > 0 && reach(m, p, true) { put_at(m, p, at(m, p).union_prefer_right(mv(definitions))) } else { m } })
