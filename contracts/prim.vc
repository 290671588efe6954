@@ schemars/src/json_schema_impls/{primitives,nonzero,array,tuple}.rs (C22)
@verus
impl VToValue for i8 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for i8 { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
impl VToValue for i16 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for i16 { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
impl VToValue for i32 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for i32 { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
impl VToValue for u8 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for u8 { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
impl VToValue for u16 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for u16 { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
impl VToValue for u32 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for u32 { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
impl VToValue for u64 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for u64 { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
impl VToValue for usize { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for usize { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }
impl VToValue for i64 { open spec fn tv(&self) -> V { V::Num(*self as int) } #[verifier::external_body] fn v_to_value(&self) -> (r: Value) { Value::from(*self) } }
impl VInto<Value> for i64 { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Num(self as int) } fn v_into(self) -> (r: Value) { self.v_to_value() } }

/// only these keywords constrain or describe the value
pub open spec fn int_kw(k: Str) -> bool { k == "type"@ || k == "format"@ || k == "minimum"@ || k == "maximum"@ }
/// an integer schema that admits exactly lo..=hi where it states bounds, and states 0 for unsigned types
pub open spec fn int_ok(r: V, lo: int, hi: int) -> bool {
  &&& r is Obj
  &&& ({ let m = r->Obj_0;
    &&& mget(m, "type"@) == Some(V::Str("integer"@))
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> int_kw(k)
    &&& m.dom().contains("format"@) ==> m["format"@] is Str
    &&& m.dom().contains("minimum"@) ==> m["minimum"@] == V::Num(lo)
    &&& m.dom().contains("maximum"@) ==> m["maximum"@] == V::Num(hi)
    &&& lo == 0 ==> m.dom().contains("minimum"@) })
}
pub open spec fn v_not0() -> V { V::Obj(SMap::<Str, V>::empty().insert("const"@, V::Num(0))) }
pub open spec fn nz_ok(r: V, lo: int, hi: int) -> bool {
  &&& r is Obj
  &&& ({ let m = r->Obj_0;
    &&& mget(m, "type"@) == Some(V::Str("integer"@))
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> int_kw(k) || k == "not"@
    &&& m.dom().contains("format"@) ==> m["format"@] is Str
    &&& m.dom().contains("not"@) ==> m["not"@] == v_not0()
    &&& m.dom().contains("minimum"@) ==> (m["minimum"@] == V::Num(lo) || (lo == 0 && m["minimum"@] == V::Num(1)))
    &&& m.dom().contains("maximum"@) ==> m["maximum"@] == V::Num(hi)
    &&& m.dom().contains("not"@) || mget(m, "minimum"@) == Some(V::Num(1))
    &&& lo == 0 ==> m.dom().contains("minimum"@) })
}
/// {"type": t} with at most a format
pub open spec fn simple_ok(r: V, t: Str) -> bool {
  &&& r is Obj
  &&& ({ let m = r->Obj_0;
    &&& mget(m, "type"@) == Some(V::Str(t))
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> k == "type"@ || k == "format"@
    &&& m.dom().contains("format"@) ==> m["format"@] is Str })
}
/// exactly n items, each described by s
pub open spec fn array_ok<T: JsonSchema>(r: V, n: int) -> bool {
  &&& r is Obj
  &&& ({ let m = r->Obj_0;
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> k == "type"@ || k == "items"@ || k == "minItems"@ || k == "maxItems"@
    &&& mget(m, "type"@) == Some(V::Str("array"@))
    &&& mget(m, "minItems"@) == Some(V::Num(n)) &&& mget(m, "maxItems"@) == Some(V::Num(n))
    &&& m.dom().contains("items"@) && sub_of::<T>(m["items"@]) })
}
pub open spec fn tuple_ok(r: V, n: int) -> bool {
  &&& r is Obj
  &&& ({ let m = r->Obj_0;
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> k == "type"@ || k == "prefixItems"@ || k == "minItems"@ || k == "maxItems"@
    &&& mget(m, "type"@) == Some(V::Str("array"@))
    &&& mget(m, "minItems"@) == Some(V::Num(n)) &&& mget(m, "maxItems"@) == Some(V::Num(n))
    &&& m.dom().contains("prefixItems"@) && m["prefixItems"@] is Arr && m["prefixItems"@]->Arr_0.len() == n })
}
@fn json_schema_impls/primitives.rs impl JsonSchema for str / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { simple_ok(r, "string"@) }
@fn json_schema_impls/primitives.rs impl JsonSchema for String / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { simple_ok(r, "string"@) }
@fn json_schema_impls/primitives.rs impl JsonSchema for bool / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { simple_ok(r, "boolean"@) }
@fn json_schema_impls/primitives.rs impl JsonSchema for f32 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { simple_ok(r, "number"@) }
@fn json_schema_impls/primitives.rs impl JsonSchema for f64 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { simple_ok(r, "number"@) }
@fn json_schema_impls/primitives.rs impl JsonSchema for () / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { simple_ok(r, "null"@) }
@fn json_schema_impls/primitives.rs impl JsonSchema for i8 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, i8::MIN as int, i8::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for i16 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, i16::MIN as int, i16::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for i32 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, i32::MIN as int, i32::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for i64 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, i64::MIN as int, i64::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for i128 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, i128::MIN as int, i128::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for isize / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, isize::MIN as int, isize::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for u8 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, u8::MIN as int, u8::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for u16 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, u16::MIN as int, u16::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for u32 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, u32::MIN as int, u32::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for u64 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, u64::MIN as int, u64::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for u128 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, u128::MIN as int, u128::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for usize / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { int_ok(r, usize::MIN as int, usize::MAX as int) }
@fn json_schema_impls/primitives.rs impl JsonSchema for char / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { r == V::Obj(SMap::<Str, V>::empty().insert("type"@, V::Str("string"@)).insert("minLength"@, V::Num(1)).insert("maxLength"@, V::Num(1))) }
@verus
use core::num::*;
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroI8 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, i8::MIN as int, i8::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroI16 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, i16::MIN as int, i16::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroI32 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, i32::MIN as int, i32::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroI64 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, i64::MIN as int, i64::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroI128 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, i128::MIN as int, i128::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroIsize / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, isize::MIN as int, isize::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroU8 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, u8::MIN as int, u8::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroU16 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, u16::MIN as int, u16::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroU32 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, u32::MIN as int, u32::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroU64 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, u64::MIN as int, u64::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroU128 / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, u128::MIN as int, u128::MAX as int) }
@fn json_schema_impls/nonzero.rs impl JsonSchema for NonZeroUsize / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { nz_ok(r, usize::MIN as int, usize::MAX as int) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 0] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { r is Obj && mget(r->Obj_0, "type"@) == Some(V::Str("array"@)) && mget(r->Obj_0, "maxItems"@) == Some(V::Num(0)) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 1] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 1) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 2] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 2) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 3] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 3) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 4] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 4) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 5] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 5) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 6] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 6) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 7] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 7) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 8] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 8) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 9] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 9) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 10] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 10) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 11] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 11) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 12] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 12) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 13] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 13) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 14] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 14) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 15] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 15) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 16] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 16) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 17] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 17) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 18] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 18) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 19] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 19) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 20] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 20) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 21] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 21) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 22] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 22) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 23] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 23) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 24] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 24) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 25] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 25) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 26] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 26) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 27] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 27) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 28] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 28) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 29] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 29) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 30] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 30) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 31] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 31) }
@fn json_schema_impls/array.rs impl JsonSchema for [T; 32] / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { array_ok::<T>(r, 32) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 1) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 2) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 3) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 4) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 5) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 6) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 7) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 8) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,T8,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 9) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) && sub_of::<T8>(r->Obj_0["prefixItems"@]->Arr_0[8]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 10) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) && sub_of::<T8>(r->Obj_0["prefixItems"@]->Arr_0[8]) && sub_of::<T9>(r->Obj_0["prefixItems"@]->Arr_0[9]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 11) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) && sub_of::<T8>(r->Obj_0["prefixItems"@]->Arr_0[8]) && sub_of::<T9>(r->Obj_0["prefixItems"@]->Arr_0[9]) && sub_of::<T10>(r->Obj_0["prefixItems"@]->Arr_0[10]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 12) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) && sub_of::<T8>(r->Obj_0["prefixItems"@]->Arr_0[8]) && sub_of::<T9>(r->Obj_0["prefixItems"@]->Arr_0[9]) && sub_of::<T10>(r->Obj_0["prefixItems"@]->Arr_0[10]) && sub_of::<T11>(r->Obj_0["prefixItems"@]->Arr_0[11]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11,T12,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 13) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) && sub_of::<T8>(r->Obj_0["prefixItems"@]->Arr_0[8]) && sub_of::<T9>(r->Obj_0["prefixItems"@]->Arr_0[9]) && sub_of::<T10>(r->Obj_0["prefixItems"@]->Arr_0[10]) && sub_of::<T11>(r->Obj_0["prefixItems"@]->Arr_0[11]) && sub_of::<T12>(r->Obj_0["prefixItems"@]->Arr_0[12]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11,T12,T13,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 14) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) && sub_of::<T8>(r->Obj_0["prefixItems"@]->Arr_0[8]) && sub_of::<T9>(r->Obj_0["prefixItems"@]->Arr_0[9]) && sub_of::<T10>(r->Obj_0["prefixItems"@]->Arr_0[10]) && sub_of::<T11>(r->Obj_0["prefixItems"@]->Arr_0[11]) && sub_of::<T12>(r->Obj_0["prefixItems"@]->Arr_0[12]) && sub_of::<T13>(r->Obj_0["prefixItems"@]->Arr_0[13]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11,T12,T13,T14,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 15) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) && sub_of::<T8>(r->Obj_0["prefixItems"@]->Arr_0[8]) && sub_of::<T9>(r->Obj_0["prefixItems"@]->Arr_0[9]) && sub_of::<T10>(r->Obj_0["prefixItems"@]->Arr_0[10]) && sub_of::<T11>(r->Obj_0["prefixItems"@]->Arr_0[11]) && sub_of::<T12>(r->Obj_0["prefixItems"@]->Arr_0[12]) && sub_of::<T13>(r->Obj_0["prefixItems"@]->Arr_0[13]) && sub_of::<T14>(r->Obj_0["prefixItems"@]->Arr_0[14]) }
@fn json_schema_impls/tuple.rs impl JsonSchema for (T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11,T12,T13,T14,T15,) / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { tuple_ok(r, 16) && sub_of::<T0>(r->Obj_0["prefixItems"@]->Arr_0[0]) && sub_of::<T1>(r->Obj_0["prefixItems"@]->Arr_0[1]) && sub_of::<T2>(r->Obj_0["prefixItems"@]->Arr_0[2]) && sub_of::<T3>(r->Obj_0["prefixItems"@]->Arr_0[3]) && sub_of::<T4>(r->Obj_0["prefixItems"@]->Arr_0[4]) && sub_of::<T5>(r->Obj_0["prefixItems"@]->Arr_0[5]) && sub_of::<T6>(r->Obj_0["prefixItems"@]->Arr_0[6]) && sub_of::<T7>(r->Obj_0["prefixItems"@]->Arr_0[7]) && sub_of::<T8>(r->Obj_0["prefixItems"@]->Arr_0[8]) && sub_of::<T9>(r->Obj_0["prefixItems"@]->Arr_0[9]) && sub_of::<T10>(r->Obj_0["prefixItems"@]->Arr_0[10]) && sub_of::<T11>(r->Obj_0["prefixItems"@]->Arr_0[11]) && sub_of::<T12>(r->Obj_0["prefixItems"@]->Arr_0[12]) && sub_of::<T13>(r->Obj_0["prefixItems"@]->Arr_0[13]) && sub_of::<T14>(r->Obj_0["prefixItems"@]->Arr_0[14]) && sub_of::<T15>(r->Obj_0["prefixItems"@]->Arr_0[15]) }
