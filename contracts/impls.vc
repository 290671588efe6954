@@ the trait under which the library's own types are implemented, and the generator as those implementations see it
@verus
#[verifier::external_body]
pub struct SchemaGenerator { _p: () }
pub trait JsonSchema {
  /// what the schema of the type may be
  spec fn js_ok(r: V) -> bool;
  fn json_schema(generator: &mut SchemaGenerator) -> (ret: Schema)
    ensures is_schema(sv(ret)), Self::js_ok(sv(ret));
}
pub open spec fn v_ref(s: Str) -> V { V::Obj(SMap::<Str, V>::empty().insert("$ref"@, V::Str(s))) }
/// a subschema for T: T's schema, or a reference
pub open spec fn sub_of<T: ?Sized + JsonSchema>(r: V) -> bool { T::js_ok(r) || exists|s: Str| #[trigger] v_ref(s) == r }
impl SchemaGenerator {
  // C03: the schema inlined, or a reference
  #[verifier::external_body]
  pub fn subschema_for<T: ?Sized + JsonSchema>(&mut self) -> (ret: Schema)
    ensures is_schema(sv(ret)), sub_of::<T>(sv(ret))
  { unimplemented!() }
}
/// what the null schema's implementation asks of the generator, and what it may do to it (nothing to say here; C20 has more)
pub open spec fn ready(g: &SchemaGenerator) -> bool { true }
pub open spec fn stepped(a: &SchemaGenerator, b: &SchemaGenerator) -> bool { true }
