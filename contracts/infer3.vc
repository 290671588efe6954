@@ ser.rs, continued: the Serializer (C20)
@verus
/// induction hypothesis: a value's Serialize implementation, run on this Serializer, infers a schema that accepts the value's JSON
pub broadcast axiom fn ax_ih<T: ?Sized + Serialize>(t: &T, r: V, j: V) ensures #[trigger] t.ser_ok(r) && t.json() == Some(j) ==> #[trigger] ok(r, j);
/// numbers in the model: Rust's integers stand for themselves
pub axiom fn ax_ints() ensures forall|n: int| i128::MIN <= n <= u128::MAX ==> #[trigger] is_int(n), forall|a: int, b: int| i128::MIN <= a <= u128::MAX && i128::MIN <= b <= u128::MAX ==> #[trigger] num_le(a, b) == (a <= b);
pub uninterp spec fn finite(v: f64) -> bool;
pub uninterp spec fn fnum(v: f64) -> int;
pub open spec fn fjson(v: f64) -> V { if finite(v) { V::Num(fnum(v)) } else { V::Null } }
pub uninterp spec fn finite32(v: f32) -> bool;
pub uninterp spec fn fnum32(v: f32) -> int;
pub open spec fn fjson32(v: f32) -> V { if finite32(v) { V::Num(fnum32(v)) } else { V::Null } }
pub assume_specification [ f64::is_finite ] (v: f64) -> (r: bool) ensures r == finite(v);
pub assume_specification [ f32::is_finite ] (v: f32) -> (r: bool) ensures r == finite32(v);
impl VInto<f64> for f32 { open spec fn vi(self, r: f64) -> bool { fjson(r) == fjson32(self) } #[verifier::external_body] fn v_into(self) -> (r: f64) { self.into() } }
/// an inferred schema for a value whose JSON is j
pub open spec fn inferred(r: Result<Schema, Error>, j: V) -> bool { r matches Ok(s) ==> is_schema(sv(s)) && ok(sv(s), j) }
pub open spec fn as_schema(r: Result<Schema, Error>) -> bool { r matches Ok(s) ==> is_schema(sv(s)) }
/// accepts anything
pub open spec fn anything(r: Result<Schema, Error>) -> bool { r matches Ok(s) ==> sv(s) == V::Bool(true) }
pub open spec fn v_typed(t: Str) -> V { V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str(t))) }
pub proof fn lemma_simple(r: V, t: Str, x: V) requires simple_ok(r, t), k_of_type(V::Str(t), x) ensures ok(r, x) {
  lemma_kwid(); let m = r->Obj_0; lemma_ok(m, x);
  assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } }
  assert(items_ok(m, x)); assert(props_ok(m, x));
}
pub proof fn lemma_typed(t: Str, x: V) requires k_of_type(V::Str(t), x) ensures ok(v_typed(t), x) { lemma_kwid(); assert(simple_ok(v_typed(t), t)); lemma_simple(v_typed(t), t, x); }
pub proof fn lemma_char(c: Seq<char>) requires c.len() == 1 ensures ok(V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("string"@)).insert("minLength"@, V::Num(1)).insert("maxLength"@, V::Num(1))), V::Str(c)) {
  lemma_kwid(); let m = SMap::<Str, V>::empty().insert("type"@, V::Str("string"@)).insert("minLength"@, V::Num(1)).insert("maxLength"@, V::Num(1)); lemma_ok(m, V::Str(c)); }
pub open spec fn bytes_json(b: Seq<u8>) -> V { V::Arr(b.map_values(|x: u8| V::Num(x as int))) }
pub proof fn lemma_byte(r: V, b: u8) requires byte_ok(r) ensures ok(r, V::Num(b as int)) {
  lemma_kwid(); ax_ints(); let m = r->Obj_0; let x = V::Num(b as int); lemma_ok(m, x);
  assert(known(m)) by { assert forall|k: Str| #[trigger] m.dom().contains(k) implies known_kw(k) by { } }
  assert(num_le(0, b as int) && num_le(b as int, 255));
}
pub proof fn lemma_bytes(r: V, b: Seq<u8>) requires seq_ok::<u8>(r) ensures ok(r, bytes_json(b)) {
  lemma_kwid(); let s = choose|s: V| #[trigger] <u8 as JsonSchema>::js_ok(s) && r == V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("array"@)).insert("items"@, s));
  let m = r->Obj_0; let x = bytes_json(b); lemma_ok(m, x); let a = x->Arr_0;
  assert forall|i: int| 0 <= i < a.len() implies elem_ok(m, i, #[trigger] a[i]) by { lemma_byte(s, b[i]); assert(a[i] == V::Num(b[i] as int)); }
}
@type ser.rs SerializeSeq
@type ser.rs SerializeTuple
@type ser.rs SerializeMap
@for $F|$T <- serialize_i8|i8 ;; serialize_i16|i16 ;; serialize_i32|i32 ;; serialize_i64|i64 ;; serialize_i128|i128 ;; serialize_u8|u8 ;; serialize_u16|u16 ;; serialize_u32|u32 ;; serialize_u64|u64 ;; serialize_u128|u128
@fn ser.rs impl Serializer for Serializer / $F
@kind method
@sig fn $F(self, _value: $T) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, V::Num(_value as int))
@start
proof { ax_ints(); lemma_typed("integer"@, V::Num(_value as int)); }
@endfor
@fn ser.rs impl Serializer for Serializer / serialize_none
@kind method
@sig fn serialize_none(self) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, V::Null)
@fn ser.rs impl Serializer for Serializer / serialize_unit
@kind method
@sig fn serialize_unit(self) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, V::Null)
@fn ser.rs impl Serializer for Serializer / serialize_f64
@kind method
@sig fn serialize_f64(self, value: f64) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, fjson(value))
@start
proof { lemma_typed("number"@, V::Num(fnum(value))); }
@fn ser.rs impl Serializer for Serializer / serialize_f32
@kind method
@sig fn serialize_f32(self, value: f32) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, fjson32(value))
@fn ser.rs impl Serializer for Serializer / serialize_bool
@kind method
@sig fn serialize_bool(self, _value: bool) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, V::Bool(_value))
@start
proof { assert forall|r: V| #[trigger] simple_ok(r, "boolean"@) implies ok(r, V::Bool(_value)) by { lemma_simple(r, "boolean"@, V::Bool(_value)); } }
@fn ser.rs impl Serializer for Serializer / serialize_char
@kind method
@sig fn serialize_char(self, _value: char) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, V::Str(seq![_value]))
@start
proof { lemma_char(seq![_value]); }
@fn ser.rs impl Serializer for Serializer / serialize_str
@kind method
@sig fn serialize_str(self, _value: &str) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, V::Str(_value@))
@start
proof { assert forall|r: V| #[trigger] simple_ok(r, "string"@) implies ok(r, V::Str(_value@)) by { lemma_simple(r, "string"@, V::Str(_value@)); } }
@fn ser.rs impl Serializer for Serializer / serialize_bytes
@kind method
@sig fn serialize_bytes(self, _value: &[u8]) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, bytes_json(_value@))
@start
proof { assert forall|r: V| #[trigger] seq_ok::<u8>(r) implies ok(r, bytes_json(_value@)) by { lemma_bytes(r, _value@); } }
@fn ser.rs impl Serializer for Serializer / collect_str
@kind method
@sig fn collect_str<T: ?Sized>(self, _value: &T) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), forall|s: Str| #[trigger] inferred(ret, V::Str(s))
@start
proof { assert forall|r: V, s: Str| simple_ok(r, "string"@) implies #[trigger] ok(r, V::Str(s)) by { lemma_simple(r, "string"@, V::Str(s)); } }
@fn ser.rs impl Serializer for Serializer / serialize_unit_struct
@kind method
@sig fn serialize_unit_struct(self, _name: &'static str) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), inferred(ret, V::Null)
@start
proof { lemma_typed("null"@, V::Null); }
@fn ser.rs impl Serializer for Serializer / serialize_some
@kind method
@sig fn serialize_some<T: Serialize + ?Sized>(self, value: &T) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), as_schema(ret), value.json() matches Some(j) ==> inferred(ret, j)
@start
broadcast use ax_ih;
proof { assert forall|v: V, x: V| is_schema(v) && ok(v, x) implies #[trigger] ok(f_anl(v), x) by { theorem_anl_keeps(v, x); } }
@fn ser.rs impl Serializer for Serializer / serialize_newtype_struct
@kind method
@sig fn serialize_newtype_struct<T: Serialize + ?Sized>(self, name: &'static str, value: &T) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), as_schema(ret), value.json() matches Some(j) ==> inferred(ret, j)
@start
broadcast use ax_ih;
proof { assert forall|v: V, w: V, x: V| is_schema(v) && ok(v, x) implies #[trigger] ok(V::Obj(as_obj(v).insert("title"@, w)), x) by { lemma_titled(v, w, x); } }
@fn ser.rs impl Serializer for Serializer / serialize_unit_variant
@kind method
@sig fn serialize_unit_variant(self, _name: &'static str, _variant_index: u32, _variant: &'static str) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), anything(ret)
@fn ser.rs impl Serializer for Serializer / serialize_newtype_variant
@kind method
@sig fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _name: &'static str, _variant_index: u32, _variant: &'static str, _value: &T) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures grows(&*old(self.generator), &*final(self.generator)), anything(ret)
