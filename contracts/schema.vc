@@ schemars/src/schema.rs: C01
@type schema.rs Schema
@verus
pub open spec fn sv(s: Schema) -> V { vv(s.0) }
pub open spec fn is_schema(v: V) -> bool { v is Bool || v is Obj }
pub open spec fn not_obj() -> V { V::Obj(SMap::<Seq<char>, V>::empty().insert("not"@, V::Obj(SMap::<Seq<char>, V>::empty()))) }
/// what forcing a schema to an object does: true -> {}, false -> {"not":{}}
pub open spec fn as_obj(v: V) -> VM {
  match v { V::Obj(m) => m, V::Bool(false) => not_obj()->Obj_0, _ => SMap::<Seq<char>, V>::empty() }
}
pub open spec fn has_type_spec(v: V, ty: Seq<char>) -> bool {
  match v {
    V::Obj(m) => m.dom().contains("type"@) && (match m["type"@] {
      V::Arr(a) => exists|i: int| 0 <= i < a.len() && #[trigger] a[i] == V::Str(ty),
      V::Str(s) => s == ty,
      _ => false,
    }),
    _ => false,
  }
}
pub open spec fn opt_vv(o: Option<&Value>) -> Option<V> { match o { Some(v) => Some(vv(*v)), None => None } }
pub open spec fn opt_vv_own(o: Option<Value>) -> Option<V> { match o { Some(v) => Some(vv(v)), None => None } }
pub open spec fn mget(m: VM, k: Seq<char>) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub trait VValueExt { fn v_get<'a>(&'a self, k: &str) -> (r: Option<&'a Value>); }
impl VValueExt for Value {
  #[verifier::external_body]
  fn v_get<'a>(&'a self, k: &str) -> (r: Option<&'a Value>)
    ensures opt_vv(r) == (match vv(*self) { V::Obj(m) => mget(m, k@), _ => None }),
  { self.get(k) }
}
// serde::de::Error / Unexpected as far as `validate` uses them
pub enum Unexpected<'a> { Unit, Unsigned(u64), Signed(i64), Float(f64), Str(&'a str), Seq }
#[verifier::external_body]
pub fn v_invalid_type(u: Unexpected<'_>, exp: &&str) -> Error { unimplemented!() }
pub assume_specification [ Number::as_u64 ] (n: &Number) -> (r: Option<u64>);
pub assume_specification [ Number::as_i64 ] (n: &Number) -> (r: Option<i64>);
pub assume_specification [ Number::as_f64 ] (n: &Number) -> (r: Option<f64>) ensures r.is_some();
impl Schema {
  // generated by the ref_cast macro (a transparent-newtype pointer cast)
  #[verifier::external_body]
  pub fn ref_cast(value: &Value) -> (r: &Self) ensures (*r).0 == *value { unimplemented!() }
  #[verifier::external_body]
  pub fn ref_cast_mut(value: &mut Value) -> (r: &mut Self)
    ensures (*r).0 == *old(value), *final(value) == (*final(r)).0
  { unimplemented!() }
}

@fn schema.rs impl Schema / validate
@subst E=Error
@call E::invalid_type=>v_invalid_type
@call Error::invalid_type=>v_invalid_type
@spec
  ensures ret.is_ok() <==> is_schema(vv(*value))
@fn schema.rs impl TryFrom<Value> for Schema / try_from
@kind free
@as schema_try_from
@sig fn schema_try_from(value: Value) -> (ret: Result<Schema, Error>)
@spec
  ensures ret.is_ok() <==> is_schema(vv(value)), ret matches Ok(s) ==> s.0 == value
@fn schema.rs impl TryFrom<&Value> for &Schema / try_from
@kind free
@as schema_try_from_ref
@sig fn schema_try_from_ref(value: &Value) -> (ret: Result<&Schema, Error>)
@spec
  ensures ret.is_ok() <==> is_schema(vv(*value)), ret matches Ok(s) ==> (*s).0 == *value
@fn schema.rs impl TryFrom<&mut Value> for &mut Schema / try_from
@kind free
@as schema_try_from_mut
@sig fn schema_try_from_mut(value: &mut Value) -> (ret: Result<&mut Schema, Error>)
@spec
  ensures ret.is_ok() <==> is_schema(vv(*old(value))),
    match ret { Ok(s) => (*s).0 == *old(value) && *final(value) == (*final(s)).0, Err(_) => *final(value) == *old(value) }
@verus
pub trait VTryInto<'a>: Sized { fn vtry_into(self) -> Result<&'a mut Schema, Error>; }
impl<'a> VTryInto<'a> for &'a mut Value {
  // `value.try_into()` with a `&mut Schema` target is `<&mut Schema>::try_from(value)`
  fn vtry_into(self) -> (ret: Result<&'a mut Schema, Error>)
  ensures ret.is_ok() <==> is_schema(vv(*old(self))),
    match ret { Ok(s) => (*s).0 == *old(self) && *final(self) == (*final(s)).0, Err(_) => *final(self) == *old(self) }
  { schema_try_from_mut(self) }
}
impl VToValue for Schema {
  open spec fn tv(&self) -> V { sv(*self) }
  // Serialize for Schema only reorders (property C18)
  #[verifier::external_body]
  fn v_to_value(&self) -> (r: Value) { unimplemented!() }
}
@fn schema.rs impl From<bool> for Schema / from
@kind free
@as schema_from_bool
@spec
  ensures sv(ret) == V::Bool(b), is_schema(sv(ret))
@fn schema.rs impl From<Map<String, Value>> for Schema / from
@kind free
@as schema_from_map
@spec
  ensures sv(ret) == V::Obj(mv(o)), is_schema(sv(ret))
@fn schema.rs impl Default for Schema / default
@kind free
@as schema_default
@sig fn schema_default() -> (ret: Schema)
@call Self=>Schema
@spec
  ensures sv(ret) == V::Obj(SMap::<Seq<char>, V>::empty())
@fn schema.rs impl From<Schema> for Value / from
@kind free
@as value_from_schema
@spec
  ensures ret == v.0
@fn schema.rs impl Schema / new_ref
@spec
  ensures sv(ret) == V::Obj(SMap::<Seq<char>, V>::empty().insert("$ref"@, V::Str(reference@))), is_schema(sv(ret))
@fn schema.rs impl Schema / as_value
@spec
  ensures *ret == self.0
@fn schema.rs impl Schema / as_bool
@spec
  ensures match sv(*self) { V::Bool(b) => ret == Some(b), _ => ret.is_none() }
@fn schema.rs impl Schema / as_object
@spec
  ensures match self.0 { Value::Object(m) => ret == Some(&m), _ => ret.is_none() }
@fn schema.rs impl Schema / as_object_mut
@spec
  ensures match old(self).0 {
      Value::Object(m) => ret.is_some() && *ret.unwrap() == m && (*final(self)).0 == Value::Object(*final(ret.unwrap())),
      _ => ret.is_none() && *final(self) == *old(self),
    }
@fn schema.rs impl Schema / try_to_object
@spec
  requires is_schema(sv(self))
  ensures match sv(self) { V::Obj(m) => ret matches Ok(x) && mv(x) == m, V::Bool(b) => ret == Err::<Map<String, Value>, bool>(b), _ => true }
@fn schema.rs impl Schema / try_as_object_mut
@spec
  requires is_schema(sv(*old(self)))
  ensures match old(self).0 {
      Value::Object(m) => ret matches Ok(x) && *x == m && (*final(self)).0 == Value::Object(*final(x)),
      Value::Bool(b) => ret matches Err(e) && e == b && *final(self) == *old(self),
      _ => true,
    }
@fn schema.rs impl Schema / to_value
@spec
  ensures ret == self.0
@fn schema.rs impl Schema / ensure_object
@spec
  requires is_schema(sv(*old(self)))
  ensures mv(*ret) == as_obj(sv(*old(self))), (*final(self)).0 == Value::Object(*final(ret))
@fn schema.rs impl Schema / insert
@spec
  requires is_schema(sv(*old(self)))
  ensures sv(*final(self)) == V::Obj(as_obj(sv(*old(self))).insert(k@, vv(v))),
    opt_vv_own(ret) == mget(as_obj(sv(*old(self))), k@)
@fn schema.rs impl Schema / get
@spec
  ensures opt_vv(ret) == (match sv(*self) { V::Obj(m) => mget(m, kv(key)), _ => None })
@fn schema.rs impl Schema / get_mut
@spec
  ensures match sv(*old(self)) {
      V::Obj(m) => if m.dom().contains(kv(key)) { ret matches Some(x) && vv(*x) == m[kv(key)] && sv(*final(self)) == V::Obj(m.insert(kv(key), vv(*final(x)))) }
                   else { ret.is_none() && sv(*final(self)) == sv(*old(self)) },
      _ => ret.is_none() && sv(*final(self)) == sv(*old(self)),
    }
@fn schema.rs impl Schema / remove
@call .remove=>remove
@spec
  ensures match sv(*old(self)) {
      V::Obj(m) => opt_vv_own(ret) == mget(m, kv(key)) && sv(*final(self)) == V::Obj(m.remove(kv(key))),
      _ => ret.is_none() && sv(*final(self)) == sv(*old(self)),
    }
@fn schema.rs impl Schema / has_type
@call .get=>v_get
@nloops 1
@spec
  ensures ret == has_type_spec(sv(*self), ty@)
@loop 0
  invariant it0.seq() == __q0, __r0 == (exists|i: int| 0 <= i < it0.index() && #[trigger] qv(__q0)[i] == V::Str(ty@))
@loopstart 0
assert(qv(__q0)[it0.index()] == vv(*__e0));
