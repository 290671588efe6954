@@ Trusted contracts on serde_json and std functions, and local helpers the lowering rules call.
@verus
#[allow(unused_imports)] pub use std::borrow::Cow;
pub assume_specification [ Value::as_str ] (v: &Value) -> (r: Option<&str>)
    ensures match vv(*v) { V::Str(s) => r.is_some() && r.unwrap()@ == s, _ => r.is_none() };
pub assume_specification [ Value::as_bool ] (v: &Value) -> (r: Option<bool>)
    ensures match vv(*v) { V::Bool(b) => r == Some(b), _ => r.is_none() };
pub assume_specification [ Value::is_string ] (v: &Value) -> (r: bool)
    ensures r == (vv(*v) is Str);
pub assume_specification [ Value::is_null ] (v: &Value) -> (r: bool)
    ensures r == (vv(*v) is Null);
pub assume_specification [ Value::is_boolean ] (v: &Value) -> (r: bool)
    ensures r == (vv(*v) is Bool);
pub assume_specification [ Value::is_array ] (v: &Value) -> (r: bool)
    ensures r == (vv(*v) is Arr);
pub assume_specification [ Value::is_object ] (v: &Value) -> (r: bool)
    ensures r == (vv(*v) is Obj);
pub assume_specification [ Value::is_number ] (v: &Value) -> (r: bool)
    ensures r == (vv(*v) is Num);
pub assume_specification [ Value::as_object ] (v: &Value) -> (r: Option<&Map<String, Value>>)
    ensures match *v { Value::Object(m) => r == Some(&m), _ => r.is_none() };
pub assume_specification [ Value::as_array ] (v: &Value) -> (r: Option<&Vec<Value>>)
    ensures match *v { Value::Array(m) => r == Some(&m), _ => r.is_none() };
pub assume_specification [ Value::as_object_mut ] (v: &mut Value) -> (r: Option<&mut Map<String, Value>>)
    ensures match (*old(v)) {
        Value::Object(m) => r.is_some() && *r.unwrap() == m && *final(v) == Value::Object(*final(r.unwrap())),
        _ => r.is_none() && *final(v) == *old(v),
    };
pub assume_specification [ Value::as_array_mut ] (v: &mut Value) -> (r: Option<&mut Vec<Value>>)
    ensures match (*old(v)) {
        Value::Array(m) => r.is_some() && *r.unwrap() == m && *final(v) == Value::Array(*final(r.unwrap())),
        _ => r.is_none() && *final(v) == *old(v),
    };
pub assume_specification [ <Value as Clone>::clone ] (v: &Value) -> (r: Value)
    ensures vv(r) == vv(*v);
pub assume_specification [ <Map<String, Value> as Clone>::clone ] (v: &Map<String, Value>) -> (r: Map<String, Value>)
    ensures mv(r) == mv(*v);

pub assume_specification [ Map::<String,Value>::new ] () -> (r: Map<String, Value>)
    ensures mv(r) == SMap::<Seq<char>, V>::empty();
pub assume_specification [ Map::<String,Value>::len ] (m: &Map<String,Value>) -> (r: usize)
    ensures r == mv(*m).len();
pub assume_specification [ Map::<String,Value>::is_empty ] (m: &Map<String,Value>) -> (r: bool)
    ensures r == (mv(*m).len() == 0), r == (mv(*m) == SMap::<Seq<char>, V>::empty());
pub assume_specification [ Map::<String,Value>::insert ] (m: &mut Map<String,Value>, k: String, v: Value) -> (r: Option<Value>)
    ensures mv(*final(m)) == mv(*old(m)).insert(k@, vv(v)),
      mv(*old(m)).dom().contains(k@) ==> r.is_some() && vv(r.unwrap()) == mv(*old(m))[k@],
      !mv(*old(m)).dom().contains(k@) ==> r.is_none();
pub assume_specification<'a, Q: ?Sized + Ord + Eq + std::hash::Hash>[Map::<String,Value>::get::<Q>](m: &'a Map<String,Value>, k: &Q) -> (r: Option<&'a Value>)
  where String: Borrow<Q>
  ensures mv(*m).dom().contains(kv(k)) ==> r.is_some() && vv(*r.unwrap()) == mv(*m)[kv(k)] && *r.unwrap() == entry(*m, kv(k)),
    !mv(*m).dom().contains(kv(k)) ==> r.is_none();
pub assume_specification<'a, Q: ?Sized + Ord + Eq + std::hash::Hash>[Map::<String,Value>::contains_key::<Q>](m: &'a Map<String,Value>, k: &Q) -> (r: bool)
  where String: Borrow<Q>
  ensures r == mv(*m).dom().contains(kv(k));
pub assume_specification<'a, Q: ?Sized + Ord + Eq + std::hash::Hash>[Map::<String,Value>::get_mut::<Q>](m: &'a mut Map<String,Value>, k: &Q) -> (r: Option<&'a mut Value>)
  where String: Borrow<Q>
  ensures mv(*old(m)).dom().contains(kv(k)) ==> r.is_some() && vv(*r.unwrap()) == mv(*old(m))[kv(k)] && mv(*final(m)) == mv(*old(m)).insert(kv(k), vv(*final(r.unwrap()))),
    !mv(*old(m)).dom().contains(kv(k)) ==> r.is_none() && mv(*final(m)) == mv(*old(m));
pub assume_specification<Q: ?Sized + Ord + Eq + std::hash::Hash>[Map::<String,Value>::remove::<Q>](m: &mut Map<String,Value>, k: &Q) -> (r: Option<Value>)
  where String: Borrow<Q>
  ensures mv(*final(m)) == mv(*old(m)).remove(kv(k)),
    mv(*old(m)).dom().contains(kv(k)) ==> r.is_some() && vv(r.unwrap()) == mv(*old(m))[kv(k)],
    !mv(*old(m)).dom().contains(kv(k)) ==> r.is_none();
pub assume_specification<Q: ?Sized + Ord + Eq + std::hash::Hash>[Map::<String,Value>::remove_entry::<Q>](m: &mut Map<String,Value>, k: &Q) -> (r: Option<(String, Value)>)
  where String: Borrow<Q>
  ensures mv(*final(m)) == mv(*old(m)).remove(kv(k)),
    mv(*old(m)).dom().contains(kv(k)) ==> r.is_some() && r.unwrap().0@ == kv(k) && vv(r.unwrap().1) == mv(*old(m))[kv(k)],
    !mv(*old(m)).dom().contains(kv(k)) ==> r.is_none();

// ---- iteration sources
pub open spec fn obj_of(v: Value) -> Map<String, Value> { match v { Value::Object(m) => m, _ => arbitrary() } }
pub trait VsMap: Sized { }
pub trait VsIntoIter: Sized { type Out; fn vs_into_iter(self) -> Self::Out; }
impl<'a> VsIntoIter for &'a mut Map<String, Value> {
  type Out = Vec<(&'a String, &'a mut Value)>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<(&'a String, &'a mut Value)>)
    ensures r@.len() == mkeys(*old(self)).len(),
      mv(*final(self)).dom() == mv(*old(self)).dom(),
      forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == mkeys(*old(self))[i] && vv(*r@[i].1) == mv(*old(self))[mkeys(*old(self))[i]]
         && mv(*final(self))[mkeys(*old(self))[i]] == vv(*final(r@[i].1)),
      forall|k: Seq<char>| mv(*old(self)).dom().contains(k) ==> #[trigger] mv(*final(self))[k] == vv(*final(r@[midx(*old(self), k)].1)),
  { self.iter_mut().collect() }
}
impl<'a> VsIntoIter for &'a Map<String, Value> {
  type Out = Vec<(&'a String, &'a Value)>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<(&'a String, &'a Value)>)
    ensures r@.len() == mkeys(*self).len(), ents(r@) == entries(*self),
      forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == mkeys(*self)[i] && vv(*r@[i].1) == mv(*self)[mkeys(*self)[i]],
  { self.iter().collect() }
}
impl VsIntoIter for Map<String, Value> {
  type Out = Vec<(String, Value)>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<(String, Value)>)
    ensures r@.len() == mkeys(self).len(),
      forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == mkeys(self)[i] && vv(r@[i].1) == mv(self)[mkeys(self)[i]],
  { self.into_iter().collect() }
}
#[verifier::prophetic]
pub open spec fn fin(q: Seq<&mut Value>) -> Seq<V> { q.map_values(|x: &mut Value| vv(*final(x))) }
pub open spec fn cur(q: Seq<&mut Value>) -> Seq<V> { q.map_values(|x: &mut Value| vv(*x)) }
impl<'a> VsIntoIter for &'a mut Vec<Value> {
  type Out = Vec<&'a mut Value>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<&'a mut Value>)
    ensures r@.len() == old(self)@.len(), final(self)@.len() == r@.len(), av(old(self)@) == cur(r@), av(final(self)@) == fin(r@),
      forall|i: int| #![trigger r@[i]] #![trigger final(self)@[i]] 0 <= i < r@.len() ==> *r@[i] == old(self)@[i] && final(self)@[i] == *final(r@[i]),
  { self.iter_mut().collect() }
}
impl<T> VsIntoIter for Vec<T> {
  type Out = Vec<T>;
  fn vs_into_iter(self) -> (r: Vec<T>)
    ensures r == self
  { self }
}
impl<'a, T> VsIntoIter for &'a Vec<T> {
  type Out = Vec<&'a T>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<&'a T>)
    ensures derefs(r@) == self@, r@.len() == self@.len(),
  { self.iter().collect() }
}
impl<'a, T> VsIntoIter for &'a [T] {
  type Out = Vec<&'a T>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<&'a T>)
    ensures derefs(r@) == self@, r@.len() == self@.len(),
  { self.iter().collect() }
}
impl<T, const N: usize> VsIntoIter for [T; N] {
  type Out = Vec<T>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<T>)
    ensures r@ == self@,
  { Vec::from(self) }
}
pub trait VsVec<T> { 
  fn vs_iter<'a>(&'a self) -> (r: Vec<&'a T>);
}
impl<T> VsVec<T> for Vec<T> {
  #[verifier::external_body]
  fn vs_iter<'a>(&'a self) -> (r: Vec<&'a T>)
    ensures derefs(r@) == self@, r@.len() == self@.len(),
  { self.iter().collect() }
}
pub trait VsMapExt {
  fn vs_values_mut<'a>(&'a mut self) -> (r: Vec<&'a mut Value>);
  fn vs_keys<'a>(&'a self) -> (r: Vec<&'a String>);
}
impl VsMapExt for Map<String, Value> {
  #[verifier::external_body]
  fn vs_values_mut<'a>(&'a mut self) -> (r: Vec<&'a mut Value>)
    ensures r@.len() == mkeys(*old(self)).len(),
      mv(*final(self)).dom() == mv(*old(self)).dom(),
      forall|i: int| 0 <= i < r@.len() ==> vv(*#[trigger] r@[i]) == mv(*old(self))[mkeys(*old(self))[i]]
         && mv(*final(self))[mkeys(*old(self))[i]] == vv(*final(r@[i])),
      forall|k: Seq<char>| mv(*old(self)).dom().contains(k) ==> #[trigger] mv(*final(self))[k] == vv(*final(r@[midx(*old(self), k)])),
  { self.values_mut().collect() }
  #[verifier::external_body]
  fn vs_keys<'a>(&'a self) -> (r: Vec<&'a String>)
    ensures r@.len() == mkeys(*self).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == mkeys(*self)[i],
  { self.keys().collect() }
}
/// the elements of `s` whose mask bit is set, in order
pub open spec fn masked<T>(s: Seq<T>, mask: Seq<bool>) -> Seq<T> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else if mask[s.len() - 1] { masked(s.drop_last(), mask).push(s.last()) } else { masked(s.drop_last(), mask) }
}

pub trait VVecExt<T> {
  fn v_retain_mask(&mut self, mask: &Vec<bool>) ;
  fn v_into_first(self) -> (r: Option<T>);
}
impl<T> VVecExt<T> for Vec<T> {
  // Vec::retain with the keep decisions already computed
  #[verifier::external_body]
  fn v_retain_mask(&mut self, mask: &Vec<bool>)
    ensures mask@.len() == old(self)@.len() ==> final(self)@ == masked(old(self)@, mask@)
  { let mut i = 0; self.retain(|_| { i += 1; mask[i - 1] }); }
  // into_iter().next()
  #[verifier::external_body]
  fn v_into_first(self) -> (r: Option<T>)
    ensures self@.len() > 0 ==> r == Some(self@[0]), self@.len() == 0 ==> r.is_none()
  { self.into_iter().next() }
}

// ---- the Entry API, re-implemented over get_mut/insert/remove_entry (its bodies are verified)
pub struct VacantEntry<'a> { pub map: &'a mut Map<String, Value>, pub key: String }
pub struct OccupiedEntry<'a> { pub map: &'a mut Map<String, Value>, pub key: String }
pub enum Entry<'a> { Vacant(VacantEntry<'a>), Occupied(OccupiedEntry<'a>) }
pub trait VKey: Sized { spec fn kview(self) -> Seq<char>; fn v_key(self) -> (r: String) ensures r@ == self.kview(); }
impl VKey for String { open spec fn kview(self) -> Seq<char> { self@ } fn v_key(self) -> (r: String) { self } }
impl<'b> VKey for &'b str { open spec fn kview(self) -> Seq<char> { self@ } fn v_key(self) -> (r: String) { self.to_string() } }
impl<'b> VKey for &'b String { open spec fn kview(self) -> Seq<char> { self@ } fn v_key(self) -> (r: String) { self.clone() } }
pub trait VMapEntry { fn v_entry<'a, K: VKey>(&'a mut self, k: K) -> (r: Entry<'a>);}
impl VMapEntry for Map<String, Value> {
  fn v_entry<'a, K: VKey>(&'a mut self, k: K) -> (r: Entry<'a>)
    ensures match r {
        Entry::Occupied(o) => mv(*old(self)).dom().contains(k.kview()) && o.key@ == k.kview() && *o.map == *old(self) && *final(self) == *final(o.map),
        Entry::Vacant(o) => !mv(*old(self)).dom().contains(k.kview()) && o.key@ == k.kview() && *o.map == *old(self) && *final(self) == *final(o.map),
      }
  {
    let key = k.v_key();
    if self.contains_key(key.as_str()) { Entry::Occupied(OccupiedEntry { map: self, key }) } else { Entry::Vacant(VacantEntry { map: self, key }) }
  }
}
impl<'a> OccupiedEntry<'a> {
  pub fn into_mut(self) -> (r: &'a mut Value)
    requires mv(*self.map).dom().contains(self.key@)
    ensures vv(*r) == mv(*old(self.map))[self.key@], mv(*final(self.map)) == mv(*old(self.map)).insert(self.key@, vv(*final(r)))
  { self.map.get_mut(self.key.as_str()).unwrap() }
  pub fn key(&self) -> (r: &String) ensures r@ == self.key@ { &self.key }
  pub fn remove_entry(self) -> (r: (String, Value))
    requires mv(*self.map).dom().contains(self.key@)
    ensures r.0@ == self.key@, vv(r.1) == mv(*old(self.map))[self.key@], mv(*final(self.map)) == mv(*old(self.map)).remove(self.key@)
  { self.map.remove_entry(self.key.as_str()).unwrap() }
}
impl<'a> VacantEntry<'a> {
  pub fn insert(self, v: Value) -> (r: &'a mut Value)
    requires !mv(*self.map).dom().contains(self.key@)
    ensures vv(*r) == vv(v), mv(*final(self.map)) == mv(*old(self.map)).insert(self.key@, vv(*final(r)))
  { let k = self.key.clone(); self.map.insert(k, v); self.map.get_mut(self.key.as_str()).unwrap() }
}
impl<'a> Entry<'a> {
  pub fn or_insert(self, v: Value) -> (r: &'a mut Value)
    requires match self { Entry::Occupied(o) => mv(*o.map).dom().contains(o.key@), Entry::Vacant(o) => !mv(*o.map).dom().contains(o.key@) }
    ensures match self {
       Entry::Occupied(o) => vv(*r) == mv(*o.map)[o.key@] && mv(*final(o.map)) == mv(*o.map).insert(o.key@, vv(*final(r))),
       Entry::Vacant(o) => vv(*r) == vv(v) && mv(*final(o.map)) == mv(*o.map).insert(o.key@, vv(*final(r))),
    }
  { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(o) => o.insert(v) } }
}

// ---- `.into()` / `T::from(..)` between the types the code converts
pub trait VInto<T>: Sized { spec fn vi(self, r: T) -> bool; fn v_into(self) -> (r: T) ensures self.vi(r); }
impl<'b> VInto<String> for &'b str { open spec fn vi(self, r: String) -> bool { r@ == self@ } fn v_into(self) -> (r: String) { self.to_string() } }
impl VInto<String> for String { open spec fn vi(self, r: String) -> bool { r@ == self@ } fn v_into(self) -> (r: String) { self } }
impl<'b> VInto<Value> for &'b str { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Str(self@) } fn v_into(self) -> (r: Value) { Value::String(self.to_string()) } }
impl VInto<Value> for String { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Str(self@) } fn v_into(self) -> (r: Value) { Value::String(self) } }
impl VInto<Value> for bool { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Bool(self) } fn v_into(self) -> (r: Value) { Value::Bool(self) } }
impl VInto<Value> for Map<String, Value> { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Obj(mv(self)) } fn v_into(self) -> (r: Value) { Value::Object(self) } }
impl VInto<Value> for Vec<Value> { open spec fn vi(self, r: Value) -> bool { vv(r) == V::Arr(av(self@)) } fn v_into(self) -> (r: Value) { Value::Array(self) } }
impl VInto<Value> for Option<Value> { open spec fn vi(self, r: Value) -> bool { vv(r) == (match self { Some(v) => vv(v), None => V::Null }) }
  fn v_into(self) -> (r: Value) { match self { Some(v) => v, None => Value::Null } } }
impl VInto<Value> for Value { open spec fn vi(self, r: Value) -> bool { r == self } fn v_into(self) -> (r: Value) { self } }

// ---- json! value expressions (json! serializes with to_value, which copies these types)
pub trait VToValue { spec fn tv(&self) -> V; fn v_to_value(&self) -> (r: Value) ensures vv(r) == self.tv(); }
impl VToValue for Value { open spec fn tv(&self) -> V { vv(*self) } fn v_to_value(&self) -> (r: Value) { self.clone() } }
impl VToValue for Map<String, Value> { open spec fn tv(&self) -> V { V::Obj(mv(*self)) } fn v_to_value(&self) -> (r: Value) { Value::Object(self.clone()) } }
impl VToValue for str { open spec fn tv(&self) -> V { V::Str(self@) } fn v_to_value(&self) -> (r: Value) { Value::String(self.to_string()) } }
impl VToValue for bool { open spec fn tv(&self) -> V { V::Bool(*self) } fn v_to_value(&self) -> (r: Value) { Value::Bool(*self) } }

// the successor taken by `for i in a..` (which panics at the type's maximum)
#[verifier::external_body]
pub fn v_range_next(c: i32) -> (r: i32) ensures r == c + 1 { c.checked_add(1).unwrap() }

#[verifier::external_body]
pub fn v_unreachable() -> !
  requires false
{ unreachable!() }
