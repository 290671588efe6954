@@ ser.rs, continued: tuples (C20)
@verus
/// item i accepts element i, and there are as many
pub open spec fn tup_inv(items: Seq<V>, js: Seq<V>) -> bool { items.len() == js.len() && forall|i: int| 0 <= i < items.len() ==> ok(#[trigger] items[i], js[i]) }
pub open spec fn v_tuple(items: Seq<V>) -> VM { SMap::<Str, V>::empty().insert("type"@, V::Str("array"@)).insert("prefixItems"@, V::Arr(items)).insert("maxItems"@, V::Num(items.len() as int)).insert("minItems"@, V::Num(items.len() as int)) }
pub proof fn lemma_tup_push(a: Seq<V>) ensures forall|r: V, js: Seq<V>, j: V| ok(r, j) && tup_inv(a, js) ==> #[trigger] tup_inv(a.push(r), js.push(j)), forall|r: V| all_schemas(a) && is_schema(r) ==> #[trigger] all_schemas(a.push(r)) { }
pub proof fn lemma_tup_end(items: Seq<V>, js: Seq<V>, t: V) requires tup_inv(items, js) ensures ok(V::Obj(v_tuple(items)), V::Arr(js)), ok(V::Obj(v_tuple(items).insert("title"@, t)), V::Arr(js)) {
  lemma_kwid(); let m = v_tuple(items); let x = V::Arr(js); lemma_ok(m, x); lemma_annot(m, "title"@, t, x);
  assert(arr_at(m, "prefixItems"@) == items);
  assert forall|i: int| 0 <= i < js.len() implies elem_ok(m, i, #[trigger] js[i]) by { assert(ok(items[i], js[i])); }
}
@for $F|$T <- serialize_tuple(self, len: usize)|serialize_tuple ;; serialize_tuple_struct(self, name: &'static str, len: usize)|serialize_tuple_struct
@fn ser.rs impl Serializer for Serializer / $T
@kind method
@sig fn $F -> (ret: Result<SerializeTuple<'a>, Error>)
@spec
  ensures ret matches Ok(s) && *s.generator == *old(self.generator) && *final(s.generator) == *final(self.generator) && s.items@ == Seq::<Schema>::empty()
@endfor
@for $TR|$F|$E <- SerializeTuple|serialize_element|tuple_end ;; SerializeTupleStruct|serialize_field|tuple_struct_end
@fn ser.rs impl $TR for SerializeTuple / $F
@kind method
@sig fn $F<T: Serialize + ?Sized>(&mut self, value: &T) -> (ret: Result<(), Error>)
@spec
  requires (*old(self)).generator.wf()
  ensures *final((*final(self)).generator) == *final((*old(self)).generator), grows(&*(*old(self)).generator, &*(*final(self)).generator), (*final(self)).title == (*old(self)).title,
    all_schemas(svs((*old(self)).items@)) ==> all_schemas(svs((*final(self)).items@)),
    ret.is_ok() ==> (value.json() matches Some(j) ==> forall|js: Seq<V>| tup_inv(svs((*old(self)).items@), js) ==> #[trigger] tup_inv(svs((*final(self)).items@), js.push(j)))
@start
broadcast use ax_ih, lemma_svs_push, lemma_svs_len;
proof { lemma_tup_push(svs(self.items@)); }
@fn ser.rs impl $TR for SerializeTuple / end
@as $E
@call SerializeTuple::end=>SerializeTuple::tuple_end
@kind method
@sig fn $E(self) -> (ret: Result<Schema, Error>)
@spec
  requires self.generator.wf()
  ensures *final(self.generator) == *old(self.generator), as_schema(ret), forall|js: Seq<V>| #[trigger] tup_inv(svs(self.items@), js) ==> inferred(ret, V::Arr(js))
@start
broadcast use lemma_svs_push, lemma_svs_len;
proof { let a = svs(self.items@); assert forall|js: Seq<V>| #[trigger] tup_inv(a, js) implies ok(V::Obj(v_tuple(a)), V::Arr(js)) && ok(V::Obj(v_tuple(a).insert("title"@, V::Str(self.title@))), V::Arr(js)) by { lemma_tup_end(a, js, V::Str(self.title@)); } }
@endfor
