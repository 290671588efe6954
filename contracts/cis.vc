@@ _private::contains_immediate_subschema
@verus
/// has a keyword that applies another schema in place
pub open spec fn cis(m: VM) -> bool { m.dom().contains("if"@) || m.dom().contains("allOf"@) || m.dom().contains("anyOf"@) || m.dom().contains("oneOf"@) || m.dom().contains("$ref"@) }
pub open spec fn two(x: V, y: V) -> Seq<V> { Seq::<V>::empty().push(x).push(y) }
@fn _private/mod.rs contains_immediate_subschema
@nloops 1
@spec
  ensures ret == cis(mv(*schema_obj))
@loop 0
  invariant it0.seq() == __q0, __q0.len() == 5, __q0[0] == "if", __q0[1] == "allOf", __q0[2] == "anyOf", __q0[3] == "oneOf", __q0[4] == "$ref",
    __r0 == exists|i: int| 0 <= i < it0.index() && mv(*schema_obj).dom().contains((#[trigger] __q0[i])@)
