// structs
struct Plain<A, B> { a: A, b: B }
#[serde(rename_all = "camelCase")]
struct Renamed<A, B> { first_name: A, #[serde(rename = "x-y")] second: B }
struct TwoNames<A> { #[serde(rename(serialize = "out", deserialize = "in"))] a: A }
#[serde(deny_unknown_fields)]
struct Deny<A> { a: A }
struct Defaults<A, B> { #[serde(default)] a: A, #[serde(default, skip_serializing_if = "skip_it")] b: B }
#[serde(default)]
struct AllDefault<A> { a: A }
struct SkipIf<A> { #[serde(skip_serializing_if = "skip_it")] a: A }
struct Skips<A, B, C, D> { #[serde(skip_serializing)] a: A, #[serde(skip_deserializing)] b: B, #[serde(skip)] c: C, d: D }
struct Required<A> { #[schemars(required)] a: A }
struct Described<A> {

    #[schemars(title = "T", extend("x-a" = "v"))]
    #[deprecated]
    a: A,
}
struct Newtype<A>(A);
struct Pair<A, B>(A, B);
struct PairSkip<A, B, C>(A, #[serde(skip_deserializing)] B, #[serde(skip)] C);
struct Unit;
#[serde(transparent)]
struct Transparent<A> { a: A }
#[serde(from = "F")]
struct FromOnly<A, F> { a: A, #[serde(skip)] f: F }
#[serde(try_from = "F", into = "I")]
struct TryInto<A, F, I> { a: A, #[serde(skip)] f: F, #[serde(skip)] i: I }
struct With<A> { #[schemars(with = "A")] a: u8 }
// enums
enum Units { One, #[serde(rename = "2")] Two }
#[serde(rename_all = "snake_case")]
enum External<A, B> { FirstUnit, New(A), Tup(A, B), #[serde(rename_all = "camelCase")] Rec { field_one: A, #[serde(default)] two: B }, #[serde(skip)] Gone }
#[serde(deny_unknown_fields)]
enum ExternalDeny<A> { Rec { a: A } }
enum ExternalSkip<A, B> { #[serde(skip_serializing)] In(A), #[serde(skip_deserializing)] Out(B), #[serde(skip_serializing)] U, V }
#[serde(tag = "t")]
enum Internal<A> { Unit, Rec { a: A } }
#[serde(tag = "t", deny_unknown_fields)]
enum InternalDeny<A> { Unit, Rec { a: A } }
#[serde(tag = "t", content = "c")]
enum Adjacent<A, B> { Unit, New(A), Tup(A, B), Rec { a: A } }
#[serde(tag = "t", content = "c", deny_unknown_fields)]
enum AdjacentDeny<A> { Unit, New(A) }
#[serde(untagged)]
enum Untagged<A, B> { Unit, New(A), Tup(A, B), Rec { a: A } }
enum Never {}
#[serde(rename_all_fields = "camelCase")]
enum FieldNames<A> { Rec { first_name: A } }
enum TwoVariantNames<A> { #[serde(rename(serialize = "out", deserialize = "in"))] V(A) }
enum LastUntagged<A> { Unit, #[serde(untagged)] New(A) }
struct SchemarsOver<A, B> { #[serde(rename = "x-y")] #[schemars(rename = "two")] a: A, #[schemars(default)] b: B }
struct DefaultFn<A> { #[serde(default = "dflt")] a: A }
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
struct Screaming<A> { first_name: A }
#[serde(tag = "t", content = "c", deny_unknown_fields)]
enum AdjacentDenyRec<A> { Rec { a: A }, #[serde(skip_deserializing)] Out { #[serde(skip_serializing_if = "skip_it")] b: A } }
struct NoFields {}
struct EmptyTuple();
struct Triple<A, B, C>(A, B, #[schemars(with = "C")] u8);
#[serde(tag = "t", rename_all = "kebab-case")]
enum InternalSkip<A> { FirstUnit, #[serde(skip_serializing)] In { a: A }, #[serde(skip_deserializing)] Out { #[serde(default)] b: A } }
#[serde(untagged, deny_unknown_fields)]
enum UntaggedDeny<A, B> { First { a: A }, Second { a: B, #[serde(rename = "x-y")] b: A } }
#[serde(into = "I")]
struct IntoOnly<A, I> { a: A, #[serde(skip)] i: I }
#[serde(from = "F")]
enum FromEnum<A, F> { A(A), #[serde(skip)] F(F) }
enum NewtypeSkip<A, B, C, D> { First(#[serde(skip)] A), Half(#[serde(skip_deserializing)] B), Out(#[serde(skip_serializing)] C), V(D) }
#[serde(tag = "t", content = "c")]
enum NewtypeSkipAdj<A, B> { First(#[serde(skip)] A), Out(#[serde(skip_serializing)] B) }
#[serde(untagged)]
enum NewtypeSkipUn<A, B> { First(#[serde(skip)] A), V(B) }
#[serde(tag = "t")]
enum NewtypeSkipInt<A> { First(#[serde(skip)] A), Unit }
