@@ further std contracts: mem::take, Vec::contains
@verus
pub trait VTake: Sized { spec fn tk(self, now: Self) -> bool; fn vtake(&mut self) -> (r: Self) ensures r == *old(self), (*old(self)).tk(*final(self)); }
impl VTake for String { open spec fn tk(self, now: Self) -> bool { now@ == Seq::<char>::empty() } #[verifier::external_body] fn vtake(&mut self) -> (r: Self) { std::mem::take(self) } }
impl VTake for Value { open spec fn tk(self, now: Self) -> bool { now is Null } #[verifier::external_body] fn vtake(&mut self) -> (r: Self) { std::mem::take(self) } }
impl VTake for Map<String, Value> { open spec fn tk(self, now: Self) -> bool { mv(now) == SMap::<Str, V>::empty() } #[verifier::external_body] fn vtake(&mut self) -> (r: Self) { std::mem::take(self) } }
pub fn v_take<T: VTake>(x: &mut T) -> (r: T) ensures r == *old(x), (*old(x)).tk(*final(x)) { x.vtake() }
pub trait VVecContains<T> { fn v_contains(&self, x: &T) -> bool; }
impl VVecContains<Value> for Vec<Value> {
  #[verifier::external_body]
  fn v_contains(&self, x: &Value) -> (r: bool) ensures r == av(self@).contains(vv(*x)) { self.contains(x) }
}
