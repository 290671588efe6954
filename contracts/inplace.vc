@@ in-place applicators
@verus
pub open spec fn is_inplace1(k: Str) -> bool { k == "if"@ || k == "then"@ || k == "else"@ }
pub open spec fn is_inplacearr(k: Str) -> bool { k == "allOf"@ || k == "anyOf"@ || k == "oneOf"@ }
/// x is an in-place subschema held by keyword k whose value is v
pub open spec fn ipos(k: Str, v: V, x: V) -> bool { is_schema(x) && ((is_inplace1(k) && x == v) || (is_inplacearr(k) && v is Arr && v->Arr_0.contains(x))) }
