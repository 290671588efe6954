@@ () and Option<T> (C12)
@fn json_schema_impls/primitives.rs impl JsonSchema for () / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { r == v_null() }
@fn json_schema_impls/core.rs impl JsonSchema for Option<T> / json_schema
@kind trait
@implextra open spec fn js_ok(r: V) -> bool { exists|s: V| sub_of::<T>(s) && r == #[trigger] f_anl(s) }
