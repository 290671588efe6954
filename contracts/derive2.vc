@@ the code #[derive(JsonSchema)] generates for the declarations in derive/corpus.rs
@verus
pub open spec fn a_Plain<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) && field(x, "b"@, opt_in::<B>(ser), v_of::<B>(ser))
}
@fn derive.rs mod Plain / impl JsonSchema for Plain<A,B> / json_schema
@kind free
@as derive_Plain
@sig fn derive_Plain<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Plain::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Renamed<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "firstName"@, opt_in::<A>(ser), v_of::<A>(ser)) && field(x, "x-y"@, opt_in::<B>(ser), v_of::<B>(ser))
}
@fn derive.rs mod Renamed / impl JsonSchema for Renamed<A,B> / json_schema
@kind free
@as derive_Renamed
@sig fn derive_Renamed<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Renamed::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_TwoNames<A: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, (if ser { "out"@ } else { "in"@ }), opt_in::<A>(ser), v_of::<A>(ser))
}
@fn derive.rs mod TwoNames / impl JsonSchema for TwoNames<A> / json_schema
@kind free
@as derive_TwoNames
@sig fn derive_TwoNames<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_TwoNames::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Deny<A: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "a"@)
}
@fn derive.rs mod Deny / impl JsonSchema for Deny<A> / json_schema
@kind free
@as derive_Deny
@sig fn derive_Deny<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Deny::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Defaults<A: JsonSchema + VDefault, B: JsonSchema + VDefault>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, !ser, v_of::<A>(ser)) && field(x, "b"@, true, v_of::<B>(ser))
}
@fn derive.rs mod Defaults / impl JsonSchema for Defaults<A,B> / json_schema
@kind free
@as derive_Defaults
@sig fn derive_Defaults<A: JsonSchema + VDefault, B: JsonSchema + VDefault>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Defaults::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub struct AllDefault<A> { pub a: A }
impl<A> VDefault for AllDefault<A> { #[verifier::external_body] fn v_default() -> Self { unimplemented!() } }
pub open spec fn a_AllDefault<A: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, !ser, v_of::<A>(ser))
}
@fn derive.rs mod AllDefault / impl JsonSchema for AllDefault<A> / json_schema
@kind free
@as derive_AllDefault
@sig fn derive_AllDefault<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call AllDefault::<A>::default=>AllDefault::<A>::v_default
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_AllDefault::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_SkipIf<A: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, (ser || opt_in::<A>(ser)), v_of::<A>(ser))
}
@fn derive.rs mod SkipIf / impl JsonSchema for SkipIf<A> / json_schema
@kind free
@as derive_SkipIf
@sig fn derive_SkipIf<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_SkipIf::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Skips<A: JsonSchema, B: JsonSchema + VDefault, C: JsonSchema, D: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && (!ser ==> field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser))) && (ser ==> field(x, "b"@, opt_in::<B>(ser), v_of::<B>(ser))) && field(x, "d"@, opt_in::<D>(ser), v_of::<D>(ser))
}
@fn derive.rs mod Skips / impl JsonSchema for Skips<A,B,C,D> / json_schema
@kind free
@as derive_Skips
@sig fn derive_Skips<A: JsonSchema, B: JsonSchema + VDefault, C: JsonSchema, D: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@call <C>::default=>C::v_default
@call <D>::default=>D::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Skips::<A, B, C, D>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Required<A: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, false, some_of::<A>(ser))
}
@fn derive.rs mod Required / impl JsonSchema for Required<A> / json_schema
@kind free
@as derive_Required
@sig fn derive_Required<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Required::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Described<A: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser))
}
@fn derive.rs mod Described / impl JsonSchema for Described<A> / json_schema
@kind free
@as derive_Described
@sig fn derive_Described<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Described::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
proof { reveal_strlit("T"); }
@verus
pub open spec fn a_Newtype<A: JsonSchema>(ser: bool, x: V) -> bool {
  A::val(ser, x)
}
@fn derive.rs mod Newtype / impl JsonSchema for Newtype<A> / json_schema
@kind free
@as derive_Newtype
@sig fn derive_Newtype<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Newtype::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Pair<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  x is Arr && x->Arr_0.len() == 2 && A::val(ser, x->Arr_0[0]) && B::val(ser, x->Arr_0[1])
}
@fn derive.rs mod Pair / impl JsonSchema for Pair<A,B> / json_schema
@kind free
@as derive_Pair
@sig fn derive_Pair<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Pair::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_PairSkip<A: JsonSchema, B: JsonSchema, C: JsonSchema>(ser: bool, x: V) -> bool {
  x is Arr && x->Arr_0.len() == (if ser { 2int } else { 1int }) && A::val(ser, x->Arr_0[0]) && (ser ==> B::val(ser, x->Arr_0[1]))
}
@fn derive.rs mod PairSkip / impl JsonSchema for PairSkip<A,B,C> / json_schema
@kind free
@as derive_PairSkip
@sig fn derive_PairSkip<A: JsonSchema, B: JsonSchema, C: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@call <C>::default=>C::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_PairSkip::<A, B, C>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Unit(ser: bool, x: V) -> bool {
  x is Null
}
@fn derive.rs mod Unit / impl JsonSchema for Unit / json_schema
@kind free
@as derive_Unit
@sig fn derive_Unit(generator: &mut SchemaGenerator) -> (ret: Schema)
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Unit(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Transparent<A: JsonSchema>(ser: bool, x: V) -> bool {
  A::val(ser, x)
}
@fn derive.rs mod Transparent / impl JsonSchema for Transparent<A> / json_schema
@kind free
@as derive_Transparent
@sig fn derive_Transparent<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Transparent::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_FromOnly<A: JsonSchema, F: JsonSchema>(ser: bool, x: V) -> bool {
  if ser { x is Obj && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) } else { F::val(ser, x) }
}
@fn derive.rs mod FromOnly / impl JsonSchema for FromOnly<A,F> / json_schema
@kind free
@as derive_FromOnly
@sig fn derive_FromOnly<A: JsonSchema, F: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <F>::default=>F::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_FromOnly::<A, F>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_TryInto<A: JsonSchema, F: JsonSchema, I: JsonSchema>(ser: bool, x: V) -> bool {
  if ser { I::val(ser, x) } else { F::val(ser, x) }
}
@fn derive.rs mod TryInto / impl JsonSchema for TryInto<A,F,I> / json_schema
@kind free
@as derive_TryInto
@sig fn derive_TryInto<A: JsonSchema, F: JsonSchema, I: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <F>::default=>F::v_default
@call <I>::default=>I::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_TryInto::<A, F, I>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_With<A: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser))
}
@fn derive.rs mod With / impl JsonSchema for With<A> / json_schema
@kind free
@as derive_With
@sig fn derive_With<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_With::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Units(ser: bool, x: V) -> bool {
  x == V::Str("One"@) || x == V::Str("2"@)
}
@fn derive.rs mod Units / impl JsonSchema for Units / json_schema
@kind free
@as derive_Units
@sig fn derive_Units(generator: &mut SchemaGenerator) -> (ret: Schema)
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Units(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_External<A: JsonSchema, B: JsonSchema + VDefault>(ser: bool, x: V) -> bool {
  x == V::Str("first_unit"@) || (single(x, "new"@) && A::val(ser, at(x, "new"@))) || (single(x, "tup"@) && { let y = at(x, "tup"@); y is Arr && y->Arr_0.len() == 2 && A::val(ser, y->Arr_0[0]) && B::val(ser, y->Arr_0[1]) }) || (single(x, "rec"@) && { let y = at(x, "rec"@); y is Obj && field(y, "fieldOne"@, opt_in::<A>(ser), v_of::<A>(ser)) && field(y, "two"@, !ser, v_of::<B>(ser)) })
}
@fn derive.rs mod External / impl JsonSchema for External<A,B> / json_schema
@kind free
@as derive_External
@sig fn derive_External<A: JsonSchema, B: JsonSchema + VDefault>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_External::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_ExternalDeny<A: JsonSchema>(ser: bool, x: V) -> bool {
  single(x, "Rec"@) && { let y = at(x, "Rec"@); y is Obj && field(y, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) && (forall|k: Str| #[trigger] y->Obj_0.dom().contains(k) ==> k == "a"@) }
}
@fn derive.rs mod ExternalDeny / impl JsonSchema for ExternalDeny<A> / json_schema
@kind free
@as derive_ExternalDeny
@sig fn derive_ExternalDeny<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_ExternalDeny::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_ExternalSkip<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  x == V::Str("V"@) || (!ser && x == V::Str("U"@)) || (!ser && single(x, "In"@) && A::val(ser, at(x, "In"@))) || (ser && single(x, "Out"@) && B::val(ser, at(x, "Out"@)))
}
@fn derive.rs mod ExternalSkip / impl JsonSchema for ExternalSkip<A,B> / json_schema
@kind free
@as derive_ExternalSkip
@sig fn derive_ExternalSkip<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_ExternalSkip::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Internal<A: JsonSchema>(ser: bool, x: V) -> bool {
  tagged(x, "t"@, "Unit"@) || (tagged(x, "t"@, "Rec"@) && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)))
}
@fn derive.rs mod Internal / impl JsonSchema for Internal<A> / json_schema
@kind free
@as derive_Internal
@sig fn derive_Internal<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Internal::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_InternalDeny<A: JsonSchema>(ser: bool, x: V) -> bool {
  (tagged(x, "t"@, "Unit"@) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "t"@)) || (tagged(x, "t"@, "Rec"@) && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "t"@ || k == "a"@))
}
@fn derive.rs mod InternalDeny / impl JsonSchema for InternalDeny<A> / json_schema
@kind free
@as derive_InternalDeny
@sig fn derive_InternalDeny<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_InternalDeny::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Adjacent<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  tagged(x, "t"@, "Unit"@) || (tagged(x, "t"@, "New"@) && has(x, "c"@) && A::val(ser, at(x, "c"@))) || (tagged(x, "t"@, "Tup"@) && has(x, "c"@) && { let y = at(x, "c"@); y is Arr && y->Arr_0.len() == 2 && A::val(ser, y->Arr_0[0]) && B::val(ser, y->Arr_0[1]) }) || (tagged(x, "t"@, "Rec"@) && has(x, "c"@) && { let y = at(x, "c"@); y is Obj && field(y, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) })
}
@fn derive.rs mod Adjacent / impl JsonSchema for Adjacent<A,B> / json_schema
@kind free
@as derive_Adjacent
@sig fn derive_Adjacent<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Adjacent::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_AdjacentDeny<A: JsonSchema>(ser: bool, x: V) -> bool {
  (tagged(x, "t"@, "Unit"@) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "t"@)) || (tagged(x, "t"@, "New"@) && has(x, "c"@) && A::val(ser, at(x, "c"@)) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "t"@ || k == "c"@))
}
@fn derive.rs mod AdjacentDeny / impl JsonSchema for AdjacentDeny<A> / json_schema
@kind free
@as derive_AdjacentDeny
@sig fn derive_AdjacentDeny<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_AdjacentDeny::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Untagged<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  x is Null || A::val(ser, x) || (x is Arr && x->Arr_0.len() == 2 && A::val(ser, x->Arr_0[0]) && B::val(ser, x->Arr_0[1])) || (x is Obj && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)))
}
@fn derive.rs mod Untagged / impl JsonSchema for Untagged<A,B> / json_schema
@kind free
@as derive_Untagged
@sig fn derive_Untagged<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Untagged::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Never(ser: bool, x: V) -> bool {
  false
}
@fn derive.rs mod Never / impl JsonSchema for Never / json_schema
@kind free
@as derive_Never
@sig fn derive_Never(generator: &mut SchemaGenerator) -> (ret: Schema)
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Never(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_FieldNames<A: JsonSchema>(ser: bool, x: V) -> bool {
  (single(x, "Rec"@) && { let y = at(x, "Rec"@); y is Obj && field(y, "firstName"@, opt_in::<A>(ser), v_of::<A>(ser)) })
}
@fn derive.rs mod FieldNames / impl JsonSchema for FieldNames<A> / json_schema
@kind free
@as derive_FieldNames
@sig fn derive_FieldNames<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_FieldNames::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_TwoVariantNames<A: JsonSchema>(ser: bool, x: V) -> bool {
  if ser { single(x, "out"@) && A::val(ser, at(x, "out"@)) } else { single(x, "in"@) && A::val(ser, at(x, "in"@)) }
}
@fn derive.rs mod TwoVariantNames / impl JsonSchema for TwoVariantNames<A> / json_schema
@kind free
@as derive_TwoVariantNames
@sig fn derive_TwoVariantNames<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_TwoVariantNames::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_LastUntagged<A: JsonSchema>(ser: bool, x: V) -> bool {
  x == V::Str("Unit"@) || A::val(ser, x)
}
@fn derive.rs mod LastUntagged / impl JsonSchema for LastUntagged<A> / json_schema
@kind free
@as derive_LastUntagged
@sig fn derive_LastUntagged<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_LastUntagged::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_SchemarsOver<A: JsonSchema, B: JsonSchema + VDefault>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "two"@, opt_in::<A>(ser), v_of::<A>(ser)) && field(x, "b"@, !ser, v_of::<B>(ser))
}
@fn derive.rs mod SchemarsOver / impl JsonSchema for SchemarsOver<A,B> / json_schema
@kind free
@as derive_SchemarsOver
@sig fn derive_SchemarsOver<A: JsonSchema, B: JsonSchema + VDefault>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_SchemarsOver::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_DefaultFn<A: JsonSchema + VDefault>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "a"@, !ser, v_of::<A>(ser))
}
@fn derive.rs mod DefaultFn / impl JsonSchema for DefaultFn<A> / json_schema
@kind free
@as derive_DefaultFn
@sig fn derive_DefaultFn<A: JsonSchema + VDefault>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call dflt=>A::v_default
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_DefaultFn::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Screaming<A: JsonSchema>(ser: bool, x: V) -> bool {
  x is Obj && field(x, "FIRST-NAME"@, opt_in::<A>(ser), v_of::<A>(ser))
}
@fn derive.rs mod Screaming / impl JsonSchema for Screaming<A> / json_schema
@kind free
@as derive_Screaming
@sig fn derive_Screaming<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Screaming::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_AdjacentDenyRec<A: JsonSchema>(ser: bool, x: V) -> bool {
  (tagged(x, "t"@, "Rec"@) && has(x, "c"@) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "t"@ || k == "c"@) && { let y = at(x, "c"@); y is Obj && field(y, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) && (forall|k: Str| #[trigger] y->Obj_0.dom().contains(k) ==> k == "a"@) }) || (ser && tagged(x, "t"@, "Out"@) && has(x, "c"@) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "t"@ || k == "c"@) && { let y = at(x, "c"@); y is Obj && field(y, "b"@, true, v_of::<A>(ser)) && (forall|k: Str| #[trigger] y->Obj_0.dom().contains(k) ==> k == "b"@) })
}
@fn derive.rs mod AdjacentDenyRec / impl JsonSchema for AdjacentDenyRec<A> / json_schema
@kind free
@as derive_AdjacentDenyRec
@sig fn derive_AdjacentDenyRec<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_AdjacentDenyRec::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_NoFields(ser: bool, x: V) -> bool {
  x is Obj
}
@fn derive.rs mod NoFields / impl JsonSchema for NoFields / json_schema
@kind free
@as derive_NoFields
@sig fn derive_NoFields(generator: &mut SchemaGenerator) -> (ret: Schema)
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_NoFields(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_EmptyTuple(ser: bool, x: V) -> bool {
  x is Arr && x->Arr_0.len() == 0
}
@fn derive.rs mod EmptyTuple / impl JsonSchema for EmptyTuple / json_schema
@kind free
@as derive_EmptyTuple
@sig fn derive_EmptyTuple(generator: &mut SchemaGenerator) -> (ret: Schema)
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_EmptyTuple(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_Triple<A: JsonSchema, B: JsonSchema, C: JsonSchema>(ser: bool, x: V) -> bool {
  x is Arr && x->Arr_0.len() == 3 && A::val(ser, x->Arr_0[0]) && B::val(ser, x->Arr_0[1]) && C::val(ser, x->Arr_0[2])
}
@fn derive.rs mod Triple / impl JsonSchema for Triple<A,B,C> / json_schema
@kind free
@as derive_Triple
@sig fn derive_Triple<A: JsonSchema, B: JsonSchema, C: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@call <C>::default=>C::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_Triple::<A, B, C>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_InternalSkip<A: JsonSchema + VDefault>(ser: bool, x: V) -> bool {
  tagged(x, "t"@, "first-unit"@) || (!ser && tagged(x, "t"@, "in"@) && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser))) || (ser && tagged(x, "t"@, "out"@) && field(x, "b"@, false, v_of::<A>(ser)))
}
@fn derive.rs mod InternalSkip / impl JsonSchema for InternalSkip<A> / json_schema
@kind free
@as derive_InternalSkip
@sig fn derive_InternalSkip<A: JsonSchema + VDefault>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_InternalSkip::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_UntaggedDeny<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  (x is Obj && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "a"@)) || (x is Obj && field(x, "a"@, opt_in::<B>(ser), v_of::<B>(ser)) && field(x, "x-y"@, opt_in::<A>(ser), v_of::<A>(ser)) && (forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> k == "a"@ || k == "x-y"@))
}
@fn derive.rs mod UntaggedDeny / impl JsonSchema for UntaggedDeny<A,B> / json_schema
@kind free
@as derive_UntaggedDeny
@sig fn derive_UntaggedDeny<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_UntaggedDeny::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_IntoOnly<A: JsonSchema, I: JsonSchema>(ser: bool, x: V) -> bool {
  if ser { I::val(ser, x) } else { x is Obj && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) }
}
@fn derive.rs mod IntoOnly / impl JsonSchema for IntoOnly<A,I> / json_schema
@kind free
@as derive_IntoOnly
@sig fn derive_IntoOnly<A: JsonSchema, I: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <I>::default=>I::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_IntoOnly::<A, I>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_FromEnum<A: JsonSchema, F: JsonSchema>(ser: bool, x: V) -> bool {
  if ser { single(x, "A"@) && A::val(ser, at(x, "A"@)) } else { F::val(ser, x) }
}
@fn derive.rs mod FromEnum / impl JsonSchema for FromEnum<A,F> / json_schema
@kind free
@as derive_FromEnum
@sig fn derive_FromEnum<A: JsonSchema, F: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <F>::default=>F::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_FromEnum::<A, F>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_NewtypeSkip<A: JsonSchema, B: JsonSchema, C: JsonSchema, D: JsonSchema>(ser: bool, x: V) -> bool {
  x == V::Str("First"@) || (if ser { single(x, "Half"@) && B::val(ser, at(x, "Half"@)) } else { x == V::Str("Half"@) }) || (if ser { x == V::Str("Out"@) } else { single(x, "Out"@) && C::val(ser, at(x, "Out"@)) }) || (single(x, "V"@) && D::val(ser, at(x, "V"@)))
}
@fn derive.rs mod NewtypeSkip / impl JsonSchema for NewtypeSkip<A,B,C,D> / json_schema
@kind free
@as derive_NewtypeSkip
@sig fn derive_NewtypeSkip<A: JsonSchema, B: JsonSchema, C: JsonSchema, D: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@call <C>::default=>C::v_default
@call <D>::default=>D::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_NewtypeSkip::<A, B, C, D>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_NewtypeSkipAdj<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  tagged(x, "t"@, "First"@) || (tagged(x, "t"@, "Out"@) && (!ser ==> has(x, "c"@) && B::val(ser, at(x, "c"@))))
}
@fn derive.rs mod NewtypeSkipAdj / impl JsonSchema for NewtypeSkipAdj<A,B> / json_schema
@kind free
@as derive_NewtypeSkipAdj
@sig fn derive_NewtypeSkipAdj<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_NewtypeSkipAdj::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_NewtypeSkipUn<A: JsonSchema, B: JsonSchema>(ser: bool, x: V) -> bool {
  x is Null || B::val(ser, x)
}
@fn derive.rs mod NewtypeSkipUn / impl JsonSchema for NewtypeSkipUn<A,B> / json_schema
@kind free
@as derive_NewtypeSkipUn
@sig fn derive_NewtypeSkipUn<A: JsonSchema, B: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@call <B>::default=>B::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_NewtypeSkipUn::<A, B>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
@verus
pub open spec fn a_NewtypeSkipInt<A: JsonSchema>(ser: bool, x: V) -> bool {
  tagged(x, "t"@, "First"@) || tagged(x, "t"@, "Unit"@)
}
@fn derive.rs mod NewtypeSkipInt / impl JsonSchema for NewtypeSkipInt<A> / json_schema
@kind free
@as derive_NewtypeSkipInt
@sig fn derive_NewtypeSkipInt<A: JsonSchema>(generator: &mut SchemaGenerator) -> (ret: Schema)
@call <A>::default=>A::v_default
@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_NewtypeSkipInt::<A>(old(generator).ser(), x)
@start
broadcast use group_derive;
proof { lemma_dnames(); }
