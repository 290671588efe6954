@@ contracts on std's text and byte functions, over vstd's UTF-8 definition
@verus
pub use vstd::utf8::*;
pub trait VStrExt {
  fn vs_chars(&self) -> (r: Vec<char>);
  fn vs_bytes(&self) -> (r: Vec<u8>);
}
impl VStrExt for str {
  #[verifier::external_body]
  fn vs_chars(&self) -> (r: Vec<char>) ensures r@ == self@ { self.chars().collect() }
  #[verifier::external_body]
  fn vs_bytes(&self) -> (r: Vec<u8>) ensures r@ == encode_utf8(self@) { self.bytes().collect() }
}
pub assume_specification [ String::reserve ] (s: &mut String, n: usize) ensures final(s)@ == old(s)@;
pub struct VUtf8Error {}
#[verifier::external_body]
pub fn v_str_from_utf8(b: &[u8]) -> (r: Result<&str, VUtf8Error>)
  ensures r.is_ok() <==> valid_utf8(b@), r matches Ok(s) ==> encode_utf8(s@) == b@ && s@ == decode_utf8(b@)
{ core::str::from_utf8(b).map_err(|_| VUtf8Error {}) }
#[verifier::external_body]
pub fn v_from_utf8(b: Vec<u8>) -> (r: Result<String, VUtf8Error>)
  ensures r.is_ok() <==> valid_utf8(b@), r matches Ok(s) ==> encode_utf8(s@) == b@ && s@ == decode_utf8(b@)
{ String::from_utf8(b).map_err(|_| VUtf8Error {}) }
pub open spec fn is_ws(b: u8) -> bool { b == 0x20 || b == 0x09 || b == 0x0A || b == 0x0C || b == 0x0D }
pub assume_specification [ u8::is_ascii_whitespace ] (b: &u8) -> (r: bool) ensures r == is_ws(*b);
pub open spec fn is_hex(b: u8) -> bool { (0x30 <= b <= 0x39) || (0x41 <= b <= 0x46) || (0x61 <= b <= 0x66) }
pub assume_specification [ u8::is_ascii_hexdigit ] (b: &u8) -> (r: bool) ensures r == is_hex(*b);
// `[first, rest @ ..]` and `[rest @ .., last]`
#[verifier::external_body]
pub fn v_split_first<T>(s: &[T]) -> (r: (&T, &[T])) requires s@.len() > 0 ensures *r.0 == s@[0], r.1@ == s@.skip(1) { s.split_first().unwrap() }
#[verifier::external_body]
pub fn v_split_last<T>(s: &[T]) -> (r: (&[T], &T)) requires s@.len() > 0 ensures *r.1 == s@.last(), r.0@ == s@.drop_last() { let (a, b) = s.split_last().unwrap(); (b, a) }
