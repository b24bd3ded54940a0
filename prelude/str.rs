// ---- strings and characters: the classification of characters, lower-casing and number parsing are std's
pub uninterp spec fn is_num(c: char) -> bool;
pub uninterp spec fn is_alpha(c: char) -> bool;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
/// str::parse::<i32>
pub uninterp spec fn pint(s: Seq<char>) -> Option<i32>;
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures r == is_num(c);
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == is_alpha(c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == (is_num(c) || is_alpha(c));
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == is_digit(*c);
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z' || 'A' <= *c && *c <= 'Z');
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String) ensures r@ == lower(s@);
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn dval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * dval(s.drop_last()) + (s.last() as int - '0' as int) } }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
/// facts of std's character tables
pub axiom fn ax_chars() ensures forall|c: char| is_digit(c) ==> #[trigger] is_num(c), forall|c: char| 'a' <= c && c <= 'z' ==> #[trigger] is_alpha(c), 
  !is_num(' '), !is_num('^'), !is_num('+'), !is_num('-'), !is_num('*'), !is_num('='), !is_alpha(' '), !is_alpha('^'), !is_alpha('+'), !is_alpha('-'), !is_alpha('*'), !is_alpha('=');
/// digit strings are parsed as decimal numbers; only strings with a sign in front give negative ones
pub broadcast axiom fn ax_pint(s: Seq<char>) ensures s.len() > 0 && digits(s) && dval(s) <= 0x7fff_ffff ==> #[trigger] pint(s) == Some(dval(s) as i32), pint(s) is Some && s.len() > 0 && is_num(s[0]) ==> pint(s)->0 >= 0;
pub trait VParse { fn v_parse<T: VFromStr>(&self) -> (r: Result<T, ()>) ensures r is Ok == T::from_str(self.pst()) is Some, r is Ok ==> r->Ok_0 == T::from_str(self.pst())->0; spec fn pst(&self) -> Seq<char>; }
pub trait VFromStr: Sized { spec fn from_str(s: Seq<char>) -> Option<Self>; }
impl VFromStr for i32 { open spec fn from_str(s: Seq<char>) -> Option<i32> { pint(s) } }
impl VParse for String { open spec fn pst(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_parse<T: VFromStr>(&self) -> (r: Result<T, ()>) { unimplemented!() } }
impl VParse for str { open spec fn pst(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_parse<T: VFromStr>(&self) -> (r: Result<T, ()>) { unimplemented!() } }
pub struct VChars { pub v: Ghost<Seq<char>> }
impl VNth for VChars { type Item = char; open spec fn sq(&self) -> Seq<char> { self.v@ } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn v_nth(&self, i: usize) -> (r: char) { unimplemented!() } }
pub trait VStrs { fn v_chars(&self) -> (r: VChars) ensures r.v@ == self.cst(); spec fn cst(&self) -> Seq<char>; }
impl VStrs for String { open spec fn cst(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() } }
impl VStrs for str { open spec fn cst(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() } }
pub trait VUnwrapRR<T> { spec fn uok(self) -> bool; spec fn uo(self) -> T; fn v_unwrap_refuse(self) -> (r: T) ensures self.uok(), r == self.uo(); }
impl<T, E> VUnwrapRR<T> for Result<T, E> { open spec fn uok(self) -> bool { self is Ok } open spec fn uo(self) -> T { self->Ok_0 } #[verifier::external_body] fn v_unwrap_refuse(self) -> (r: T) { unimplemented!() } }
// String + &str
pub axiom fn ax_sadd_on() ensures <String as AddSpec<&str>>::obeys_add_spec();
pub broadcast axiom fn ax_sadd_ok(s: String, t: &str) ensures #[trigger] s.add_req(t);
pub broadcast axiom fn ax_sadd(s: String, t: &str) ensures (#[trigger] s.add_spec(t))@ == s@ + t@;
pub broadcast group strs { ax_pint, ax_sadd_ok, ax_sadd }
