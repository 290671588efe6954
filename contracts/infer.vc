@@ ser.rs: schemas inferred from values (C20)
@verus
pub open spec fn ready(g: &SchemaGenerator) -> bool { g.wf() }
pub open spec fn stepped(a: &SchemaGenerator, b: &SchemaGenerator) -> bool { grows(a, b) }
/// {"type": t} with at most a format
pub open spec fn simple_ok(r: V, t: Str) -> bool {
  &&& r is Obj
  &&& ({ let m = r->Obj_0;
    &&& mget(m, "type"@) == Some(V::Str(t))
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> k == "type"@ || k == "format"@
    &&& m.dom().contains("format"@) ==> m["format"@] is Str })
}
pub open spec fn seq_ok<T: JsonSchema>(r: V) -> bool { exists|s: V| #[trigger] T::js_ok(s) && r == V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("array"@)).insert("items"@, s)) }
pub open spec fn byte_ok(r: V) -> bool {
  &&& r is Obj
  &&& ({ let m = r->Obj_0;
    &&& mget(m, "type"@) == Some(V::Str("integer"@))
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> k == "type"@ || k == "format"@ || k == "minimum"@ || k == "maximum"@
    &&& m.dom().contains("format"@) ==> m["format"@] is Str
    &&& m.dom().contains("minimum"@) ==> m["minimum"@] == V::Num(0)
    &&& m.dom().contains("maximum"@) ==> m["maximum"@] == V::Num(255) })
}
impl VToValue for u8 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VToValue for i32 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VToValue for usize { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
pub open spec fn svs(a: Seq<Schema>) -> Seq<V> { a.map_values(|s: Schema| sv(s)) }
impl VToValue for Vec<Schema> { open spec fn tv(&self) -> V { V::Arr(svs(self@)) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { unimplemented!() } }
impl VInto<Schema> for bool { open spec fn vi(self, r: Schema) -> bool { sv(r) == V::Bool(self) } fn v_into(self) -> (r: Schema) { schema_from_bool(self) } }
// ---- every one of these is inlined
@fn json_schema_impls/primitives.rs impl JsonSchema for () / inline_schema
@kind free
@as inline_unit
@spec
  ensures ret
@fn json_schema_impls/primitives.rs impl JsonSchema for bool / inline_schema
@kind free
@as inline_bool
@spec
  ensures ret
@fn json_schema_impls/primitives.rs impl JsonSchema for char / inline_schema
@kind free
@as inline_char
@spec
  ensures ret
@fn json_schema_impls/primitives.rs impl JsonSchema for str / inline_schema
@kind free
@as inline_str
@spec
  ensures ret
@fn json_schema_impls/primitives.rs impl JsonSchema for u8 / inline_schema
@kind free
@as inline_u8
@spec
  ensures ret
@fn json_schema_impls/serdejson.rs impl JsonSchema for Value / inline_schema
@kind free
@as inline_value
@spec
  ensures ret
@fn json_schema_impls/sequences.rs impl JsonSchema for [T] / inline_schema
@kind free
@as inline_slice
@sig fn inline_slice() -> (ret: bool)
@spec
  ensures ret
@fn json_schema_impls/wrapper.rs impl JsonSchema for &T / inline_schema
@kind free
@as inline_ref
@sig fn inline_ref<T: ?Sized + JsonSchema>() -> (ret: bool)
@spec
  ensures ret == T::js_inline()
@for $TY|$F|$IN|$OK <- ()|primitives|inline_unit()|r == v_null() ;; bool|primitives|inline_bool()|simple_ok(r, "boolean"@) ;; str|primitives|inline_str()|simple_ok(r, "string"@) ;; u8|primitives|inline_u8()|byte_ok(r) ;; Value|serdejson|inline_value()|r == V::Bool(true) ;; char|primitives|inline_char()|r == V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("string"@)).insert("minLength"@, V::Num(1)).insert("maxLength"@, V::Num(1)))
@fn json_schema_impls/$F.rs impl JsonSchema for $TY / json_schema
@kind trait
@implextra
open spec fn js_ok(r: V) -> bool { $OK }
open spec fn js_inline() -> bool { true }
uninterp spec fn js_id() -> Str;
uninterp spec fn js_name(n: Str) -> bool;
fn inline_schema() -> (ret: bool) { $IN }
#[verifier::external_body] fn schema_id() -> (ret: CowStr) { unimplemented!() }
#[verifier::external_body] fn schema_name() -> (ret: CowStr) { unimplemented!() }
@endfor
@fn json_schema_impls/sequences.rs impl JsonSchema for [T] / json_schema
@kind trait
@implextra
open spec fn js_ok(r: V) -> bool { T::js_inline() ==> seq_ok::<T>(r) }
open spec fn js_inline() -> bool { true }
uninterp spec fn js_id() -> Str;
uninterp spec fn js_name(n: Str) -> bool;
fn inline_schema() -> (ret: bool) { inline_slice() }
#[verifier::external_body] fn schema_id() -> (ret: CowStr) { unimplemented!() }
#[verifier::external_body] fn schema_name() -> (ret: CowStr) { unimplemented!() }
@fn json_schema_impls/wrapper.rs impl JsonSchema for &T / json_schema
@kind trait
@implextra
open spec fn js_ok(r: V) -> bool { T::js_ok(r) }
open spec fn js_inline() -> bool { T::js_inline() }
open spec fn js_id() -> Str { T::js_id() }
open spec fn js_name(n: Str) -> bool { T::js_name(n) }
fn inline_schema() -> (ret: bool) { inline_ref::<T>() }
#[verifier::external_body] fn schema_id() -> (ret: CowStr) { unimplemented!() }
#[verifier::external_body] fn schema_name() -> (ret: CowStr) { unimplemented!() }
