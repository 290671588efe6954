@@ ser.rs, continued: maps, structs and struct variants (C20)
@verus
/// a property for each member, accepting its value
pub open spec fn map_inv(props: VM, o: VM) -> bool { props.dom() == o.dom() && forall|k: Str| #[trigger] props.dom().contains(k) ==> ok(props[k], o[k]) }
pub open spec fn v_struct(props: VM) -> VM { SMap::<Str, V>::empty().insert("type"@, V::Str("object"@)).insert("properties"@, V::Obj(props)) }
pub proof fn lemma_map_put(a: VM) ensures forall|r: V, o: VM, k: Str, j: V| ok(r, j) && map_inv(a, o) ==> #[trigger] map_inv(a.insert(k, r), o.insert(k, j)) {
  assert forall|r: V, o: VM, k: Str, j: V| ok(r, j) && map_inv(a, o) implies #[trigger] map_inv(a.insert(k, r), o.insert(k, j)) by { assert(a.insert(k, r).dom() =~= o.insert(k, j).dom()); } }
pub proof fn lemma_map_end(props: VM, o: VM, t: V) requires map_inv(props, o) ensures ok(V::Obj(v_struct(props)), V::Obj(o)), ok(V::Obj(v_struct(props).insert("title"@, t)), V::Obj(o)) {
  lemma_kwid(); let m = v_struct(props); let x = V::Obj(o); lemma_ok(m, x); lemma_annot(m, "title"@, t, x);
  assert(obj_at(m, "properties"@) == props);
  assert forall|k: Str| #[trigger] o.dom().contains(k) implies prop_ok(m, k, o[k]) by { assert(props.dom().contains(k)); }
}
/// the JSON text of a key, and what serde_json calls the member of a key with that text
pub uninterp spec fn json_text<T: ?Sized>(t: &T) -> Str;
pub uninterp spec fn is_quoted(t: Str) -> bool;
pub uninterp spec fn unquoted(t: Str) -> Str;
pub open spec fn member(t: Str) -> Str { if is_quoted(t) { unquoted(t) } else { t } }
#[verifier::external_body]
pub fn to_string<T: ?Sized + Serialize>(v: &T) -> (r: Result<String, Error>) ensures r matches Ok(s) ==> s@ == json_text(v) { unimplemented!() }
#[verifier::external_body]
pub fn from_str<T>(s: &str) -> (r: Result<String, Error>) ensures r.is_ok() == is_quoted(s@), r matches Ok(x) ==> x@ == unquoted(s@) { unimplemented!() }
impl VTake for Option<String> { open spec fn tk(self, now: Self) -> bool { now is None } #[verifier::external_body] fn vtake(&mut self) -> (r: Self) { std::mem::take(self) } }
pub open spec fn key_now(k: Option<String>) -> Str { match k { Some(s) => s@, None => Seq::<char>::empty() } }
pub assume_specification<T: core::marker::Destruct, E: core::marker::Destruct>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (x: T) ensures x == (match r { Ok(v) => v, Err(_) => d });
pub trait VDefault3 { fn v_unwrap_or_default(self) -> String; }
impl VDefault3 for Option<String> { #[verifier::external_body] fn v_unwrap_or_default(self) -> (r: String) ensures r@ == key_now(self) { self.unwrap_or_default() } }
@fn ser.rs impl Serializer for Serializer / serialize_map
@kind method
@sig fn serialize_map(self, _len: Option<usize>) -> (ret: Result<SerializeMap<'a>, Error>)
@spec
  ensures ret matches Ok(s) && *s.generator == *old(self.generator) && *final(s.generator) == *final(self.generator) && mv(s.properties) == SMap::<Str, V>::empty()
@fn ser.rs impl Serializer for Serializer / serialize_struct
@kind method
@sig fn serialize_struct(self, name: &'static str, _len: usize) -> (ret: Result<SerializeMap<'a>, Error>)
@spec
  ensures ret matches Ok(s) && *s.generator == *old(self.generator) && *final(s.generator) == *final(self.generator) && mv(s.properties) == SMap::<Str, V>::empty()
@fn ser.rs impl SerializeMap for SerializeMap / serialize_key
@kind method
@sig fn serialize_key<T: Serialize + ?Sized>(&mut self, key: &T) -> (ret: Result<(), Error>)
@spec
  ensures *final((*final(self)).generator) == *final((*old(self)).generator), *(*final(self)).generator == *(*old(self)).generator, (*final(self)).title == (*old(self)).title, (*final(self)).properties == (*old(self)).properties,
    ret.is_ok() ==> ((*final(self)).current_key matches Some(k) && k@ == member(json_text(key)))
@fn ser.rs impl SerializeMap for SerializeMap / serialize_value
@kind method
@sig fn serialize_value<T: Serialize + ?Sized>(&mut self, value: &T) -> (ret: Result<(), Error>)
@spec
  requires (*old(self)).generator.wf()
  ensures *final((*final(self)).generator) == *final((*old(self)).generator), grows(&*(*old(self)).generator, &*(*final(self)).generator), (*final(self)).title == (*old(self)).title,
    ret.is_ok() ==> mv((*final(self)).properties).dom() =~= mv((*old(self)).properties).dom().insert(key_now((*old(self)).current_key)),
    ret.is_ok() ==> (value.json() matches Some(j) ==> forall|o: VM| map_inv(mv((*old(self)).properties), o) ==> #[trigger] map_inv(mv((*final(self)).properties), o.insert(key_now((*old(self)).current_key), j)))
@start
broadcast use ax_ih;
proof { lemma_map_put(mv(self.properties)); }
@fn ser.rs impl SerializeMap for SerializeMap / end
@as map_end
@kind method
@sig fn map_end(self) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures *final(self.generator) == *old(self.generator), as_schema(ret), forall|o: VM| #[trigger] map_inv(mv(self.properties), o) ==> inferred(ret, V::Obj(o)),
    ret matches Ok(s) ==> sv(s) is Obj && mget(sv(s)->Obj_0, "properties"@) == Some(V::Obj(mv(self.properties)))
@start
proof { let a = mv(self.properties); assert forall|o: VM| #[trigger] map_inv(a, o) implies ok(V::Obj(v_struct(a)), V::Obj(o)) && ok(V::Obj(v_struct(a).insert("title"@, V::Str(self.title@))), V::Obj(o)) by { lemma_map_end(a, o, V::Str(self.title@)); } }
@fn ser.rs impl SerializeStruct for SerializeMap / serialize_field
@kind method
@sig fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, value: &T) -> (ret: Result<(), Error>)
@spec
  requires (*old(self)).generator.wf()
  ensures *final((*final(self)).generator) == *final((*old(self)).generator), grows(&*(*old(self)).generator, &*(*final(self)).generator), (*final(self)).title == (*old(self)).title,
    ret.is_ok() ==> mv((*final(self)).properties).dom() =~= mv((*old(self)).properties).dom().insert(key@),
    ret.is_ok() ==> (value.json() matches Some(j) ==> forall|o: VM| map_inv(mv((*old(self)).properties), o) ==> #[trigger] map_inv(mv((*final(self)).properties), o.insert(key@, j)))
@start
broadcast use ax_ih;
proof { lemma_map_put(mv(self.properties)); }
@fn ser.rs impl SerializeStruct for SerializeMap / end
@as struct_end
@call SerializeMap::end=>SerializeMap::map_end
@kind method
@sig fn struct_end(self) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures *final(self.generator) == *old(self.generator), as_schema(ret), forall|o: VM| #[trigger] map_inv(mv(self.properties), o) ==> inferred(ret, V::Obj(o)),
    ret matches Ok(s) ==> sv(s) is Obj && mget(sv(s)->Obj_0, "properties"@) == Some(V::Obj(mv(self.properties)))
@fn ser.rs impl Serializer for Serializer / serialize_tuple_variant
@kind method
@sig fn serialize_tuple_variant(self, _name: &'static str, _variant_index: u32, _variant: &'static str, _len: usize) -> (ret: Result<Serializer<'a>, Error>)
@spec
  ensures ret matches Ok(s) && s == self
@fn ser.rs impl Serializer for Serializer / serialize_struct_variant
@kind method
@sig fn serialize_struct_variant(self, _name: &'static str, _variant_index: u32, _variant: &'static str, _len: usize) -> (ret: Result<Serializer<'a>, Error>)
@spec
  ensures ret matches Ok(s) && s == self
@fn ser.rs impl SerializeTupleVariant for Serializer / serialize_field
@as tuple_variant_field
@kind method
@sig fn tuple_variant_field<T: Serialize + ?Sized>(&mut self, _value: &T) -> (ret: Result<(), Error>)
@spec
  ensures *final(self) == *old(self)
@fn ser.rs impl SerializeStructVariant for Serializer / serialize_field
@as struct_variant_field
@kind method
@sig fn struct_variant_field<T: Serialize + ?Sized>(&mut self, _key: &'static str, _value: &T) -> (ret: Result<(), Error>)
@spec
  ensures *final(self) == *old(self)
@fn ser.rs impl SerializeTupleVariant for Serializer / end
@as tuple_variant_end
@kind method
@sig fn tuple_variant_end(self) -> (ret: Result<Schema, Error>)
@spec
  ensures anything(ret)
@fn ser.rs impl SerializeStructVariant for Serializer / end
@as struct_variant_end
@kind method
@sig fn struct_variant_end(self) -> (ret: Result<Schema, Error>)
@spec
  ensures anything(ret)
@verus
/// every one of the first n values is accepted by what has been folded so far
pub open spec fn fold_inv<K, T: Serialize>(acc: Option<V>, q: Seq<(K, T)>, n: int) -> bool {
  forall|i: int| 0 <= i < n ==> fold_ok(acc, (#[trigger] q[i]).1.json())
}
pub open spec fn fold_ok(acc: Option<V>, x: Option<V>) -> bool { x matches Some(j) ==> acc matches Some(a) && ok(a, j) }
/// every member's value is the JSON of one of the values
pub open spec fn values_of<K, T: Serialize>(o: VM, q: Seq<(K, T)>) -> bool { forall|k: Str| #[trigger] o.dom().contains(k) ==> is_value(o[k], q) }
pub open spec fn is_value<K, T: Serialize>(x: V, q: Seq<(K, T)>) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1.json() == Some(x) }
pub open spec fn v_mapof(s: V) -> VM { SMap::<Str, V>::empty().insert("type"@, V::Str("object"@)).insert("additionalProperties"@, s) }
pub proof fn lemma_mapof<K, T: Serialize>(s: V, q: Seq<(K, T)>, o: VM) requires fold_inv(Some(s), q, q.len() as int), values_of(o, q) ensures ok(V::Obj(v_mapof(s)), V::Obj(o)) {
  lemma_kwid(); let m = v_mapof(s); lemma_ok(m, V::Obj(o));
  assert forall|k: Str| #[trigger] o.dom().contains(k) implies prop_ok(m, k, o[k]) by { assert(is_value(o[k], q)); let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1.json() == Some(o[k]); assert(ok(s, o[k])); }
}
@fn ser.rs impl Serializer for Serializer / collect_map
@kind method
@nloops 1
@sig fn collect_map<K: Serialize, T: Serialize>(self, iter: Vec<(K, T)>) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), as_schema(ret), forall|o: VM| #[trigger] values_of(o, iter@) ==> inferred(ret, V::Obj(o))
@start
broadcast use ax_ih;
let ghost g0 = *self.generator;
proof { ax_eq_schema(); }
@loop 0
  invariant it0.seq() == iter@, grows(&g0, &*self.generator), fold_inv(osv(__acc0), iter@, it0.index() as int), osv(__acc0) matches Some(v) ==> is_schema(v)
@verus
// ---- the document: the value's JSON as the example, $schema and definitions added
pub open spec fn defs_kw(k: Str) -> bool { k == "$defs"@ || k == "definitions"@ }
/// definitions are kept under a keyword meant for them
pub open spec fn defs_apart(path: Str) -> bool { let q = segs(stripped(path)); q.len() > 0 && defs_kw(unesc(q[0])) }
pub proof fn lemma_put_first(m: VM, q: Seq<Str>, i: int, x: VM) requires 1 <= i <= q.len() ensures put(m, q, i, x) == m.insert(unesc(q[0]), put(m, q, i, x)[unesc(q[0])]) decreases i {
  if i == 1 { assert(put(m, q, 0, m.insert(unesc(q[0]), V::Obj(x))) == m.insert(unesc(q[0]), V::Obj(x))); } else { lemma_put_first(m, q, i - 1, step(m, q, i - 1).insert(unesc(q[i - 1]), V::Obj(x))); } }
/// what is generated for a value, before the transforms: it has the value's JSON as its only example, and accepts it
pub proof fn theorem_accepts_value<T: ?Sized + Serialize>(t: &T, a: &SchemaGenerator, defs: VM, s: V, j: V)
  requires t.ser_ok(s), t.json() == Some(j), defs_apart(a.settings.definitions_path.cv())
  ensures ok(s, j), ok(rooted(exampled(as_obj(s), Some(j)), a, defs), j), mget(rooted(exampled(as_obj(s), Some(j)), a, defs)->Obj_0, "examples"@) == Some(V::Arr(seq![j]))
{
  lemma_kwid(); ax_ih(t, s, j);
  let o = as_obj(s);
  assert(ok(V::Obj(o), j)) by { match s { V::Bool(b) => { lemma_ok(o, j); }, _ => {} } }
  let e = exampled(o, Some(j)); lemma_annot(o, "examples"@, V::Arr(seq![j]), j);
  let w = with_meta(e, ocv(a.settings.meta_schema));
  match ocv(a.settings.meta_schema) { Some(x) => { lemma_annot(e, "$schema"@, V::Str(x), j); }, None => {} }
  let p = stripped(a.settings.definitions_path.cv()); let q = segs(p);
  let d = with_defs(w, a.settings.definitions_path.cv(), defs);
  if d != w { let x = at(w, p).union_prefer_right(defs); lemma_put_first(w, q, q.len() as int, x); lemma_annot(w, unesc(q[0]), d[unesc(q[0])], j); }
}
/// the whole of it: the document is what the transforms made of one that accepts the value (of itself, where there are no transforms)
pub proof fn theorem_value_doc<T: ?Sized + Serialize>(t: &T, a: &SchemaGenerator, defs: VM, r: V, j: V)
  requires value_doc(t, a, defs, r), t.json() == Some(j), defs_apart(a.settings.definitions_path.cv())
  ensures exists|w: V| #[trigger] run_n(a.settings.transforms.q().len() as int, w, r) && ok(w, j) && w is Obj && mget(w->Obj_0, "examples"@) == Some(V::Arr(seq![j])),
    a.settings.transforms.q().len() == 0 ==> ok(r, j) && r is Obj && mget(r->Obj_0, "examples"@) == Some(V::Arr(seq![j]))
{
  let n = a.settings.transforms.q().len() as int;
  let s = choose|s: V| #[trigger] t.ser_ok(s) && run_n(n, rooted(exampled(as_obj(s), t.json()), a, defs), r);
  theorem_accepts_value(t, a, defs, s, j);
  let w = rooted(exampled(as_obj(s), Some(j)), a, defs);
  assert(run_n(n, w, r));
  if n == 0 { let ts = choose|ts: Seq<VTransform>| ts.len() == n && #[trigger] run(ts, n, w, r); let ss = choose|ss: Seq<V>| #[trigger] steps(ts, n, ss) && ss[0] == w && ss[n] == r; assert(r == w); }
}
