@@ BTreeSet<String> / BTreeSet<Cow<'static, str>> seen as a set of texts
@verus
use std::collections::BTreeSet;
use vstd::iset::ISet;
pub uninterp spec fn bset(s: BTreeSet<String>) -> ISet<Str>;
pub trait VSetExt { 
  spec fn vset(&self) -> ISet<Str>;
  fn v_extend1(&mut self, x: String) ensures final(self).vset() == old(self).vset().insert(x@);
  fn v_set_insert(&mut self, x: String) -> (r: bool) ensures final(self).vset() == old(self).vset().insert(x@), r == !old(self).vset().contains(x@);
  fn v_is_empty(&self) -> (r: bool) ensures r == (self.vset() == ISet::<Str>::empty()), !r ==> exists|n: Str| self.vset().contains(n);
}
impl VSetExt for BTreeSet<String> {
  open spec fn vset(&self) -> ISet<Str> { bset(*self) }
  #[verifier::external_body]
  fn v_extend1(&mut self, x: String) { self.insert(x); }
  #[verifier::external_body]
  fn v_set_insert(&mut self, x: String) -> (r: bool) { self.insert(x) }
  #[verifier::external_body]
  fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
#[verifier::external_body]
pub fn v_new_set() -> (r: BTreeSet<String>) ensures bset(r) == ISet::<Str>::empty() { BTreeSet::new() }
/// the texts among the first i elements
pub open spec fn strset(q: Seq<String>, i: int) -> ISet<Str> { ISet::new(|n: Str| exists|j: int| 0 <= j < i && #[trigger] q[j]@ == n) }
impl VsIntoIter for BTreeSet<String> {
  type Out = Vec<String>;
  #[verifier::external_body]
  fn vs_into_iter(self) -> (r: Vec<String>)
    ensures strset(r@, r@.len() as int) == bset(self)
  { self.into_iter().collect() }
}
#[verifier::external_body]
pub fn v_map_keys(m: &Map<String, Value>) -> (r: Vec<&String>)
    ensures r@.len() == mkeys(*m).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == mkeys(*m)[i],
{ m.keys().collect() }
