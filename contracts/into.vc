@verus
impl VInto<Value> for Schema { open spec fn vi(self, r: Value) -> bool { vv(r) == sv(self) } fn v_into(self) -> (r: Value) { value_from_schema(self) } }
