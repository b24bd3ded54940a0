// ---- names of wires: splitting, trimming and formatting strings; sets of hashed values; more of Vec
pub trait VToString { spec fn ts(&self) -> Seq<char>; fn v_to_string(&self) -> (r: String) ensures r@ == self.ts(); }
impl VToString for str { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for String { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
/// numbers printed in decimal
pub uninterp spec fn istr(i: i32) -> Seq<char>;
pub uninterp spec fn ustr(i: nat) -> Seq<char>;
pub axiom fn ax_istr(i: i32) ensures pint(istr(i)) == Some(i), i >= 0 ==> istr(i) == ustr(i as nat) && digits(istr(i));
impl VToString for i32 { open spec fn ts(&self) -> Seq<char> { istr(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for u32 { open spec fn ts(&self) -> Seq<char> { ustr(*self as nat) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for u64 { open spec fn ts(&self) -> Seq<char> { ustr(*self as nat) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for usize { open spec fn ts(&self) -> Seq<char> { ustr(*self as nat) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
// format!: the literal pieces and the arguments, one after the other
pub trait VDisp { spec fn ds(&self) -> Seq<char>; }
impl VDisp for str { open spec fn ds(&self) -> Seq<char> { self@ } }
impl VDisp for String { open spec fn ds(&self) -> Seq<char> { self@ } }
impl VDisp for i32 { open spec fn ds(&self) -> Seq<char> { istr(*self) } }
impl VDisp for usize { open spec fn ds(&self) -> Seq<char> { ustr(*self as nat) } }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { open spec fn ds(&self) -> Seq<char> { (**self).ds() } }
#[verifier::external_body] pub fn vfmt() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub trait VFmt: Sized { spec fn fs(&self) -> Seq<char>; fn v_lit(self, s: &str) -> (r: String) ensures r@ == self.fs() + s@, self.fs().len() == 0 ==> r@ == s@; fn v_arg<D: VDisp + ?Sized>(self, d: &D) -> (r: String) ensures r@ == self.fs() + d.ds(), self.fs().len() == 0 ==> r@ == d.ds(); }
impl VFmt for String { open spec fn fs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_lit(self, s: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn v_arg<D: VDisp + ?Sized>(self, d: &D) -> (r: String) { unimplemented!() } }
/// the place of the last c, -1 if there is none
pub open spec fn lastof(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { lastof(s.drop_last(), c) } }
/// str::split at a character: the pieces between its occurrences
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() { let i = lastof(s, c); if 0 <= i < s.len() { split(s.subrange(0, i), c).push(s.subrange(i + 1, s.len() as int)) } else { seq![s] } }
#[verifier::external_body] pub struct VSplit<'a> { p: core::marker::PhantomData<&'a str> }
pub uninterp spec fn pieces<'a>(s: VSplit<'a>) -> Seq<&'a str>;
impl<'a> VNth for VSplit<'a> { type Item = &'a str; open spec fn sq(&self) -> Seq<&'a str> { pieces(*self) } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn v_nth(&self, i: usize) -> (r: &'a str) { unimplemented!() } }
pub trait VSplitS { spec fn vs(&self) -> Seq<char>; fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>) ensures pieces(r).len() == split(self.vs(), c).len(), forall|i: int| 0 <= i < pieces(r).len() ==> (#[trigger] pieces(r)[i])@ == split(self.vs(), c)[i];
  fn v_strip_prefix<'a>(&'a self, c: char) -> (r: Option<&'a str>) ensures r is Some == (self.vs().len() > 0 && self.vs()[0] == c), r is Some ==> r->0@ == self.vs().subrange(1, self.vs().len() as int); }
impl VSplitS for str { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>) { unimplemented!() } #[verifier::external_body] fn v_strip_prefix<'a>(&'a self, c: char) -> (r: Option<&'a str>) { unimplemented!() } }
impl VSplitS for String { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>) { unimplemented!() } #[verifier::external_body] fn v_strip_prefix<'a>(&'a self, c: char) -> (r: Option<&'a str>) { unimplemented!() } }
/// str::trim: drops blanks at both ends
pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn is_blank(c: char) -> bool;
pub assume_specification[ str::trim ](s: &str) -> (r: &str) ensures r@ == trim(s@);
pub axiom fn ax_trim(s: Seq<char>) ensures forall|i: int| 0 <= i < trim(s).len() ==> s.contains(#[trigger] trim(s)[i]), (forall|i: int| 0 <= i < s.len() ==> !is_blank(#[trigger] s[i])) ==> trim(s) == s, !is_blank('-');
/// a number with a minus sign in front
pub axiom fn ax_pint_neg(d: Seq<char>) ensures d.len() > 0 && digits(d) && dval(d) <= 0x7fff_ffff ==> pint(seq!['-'] + d) == Some((-dval(d)) as i32);
// sets of values compared by their contents
pub open spec fn sins<K>(o: Set<K>, n: Set<K>, k: K) -> bool { forall|j: K| #[trigger] n.contains(j) == (o.contains(j) || j == k) }
pub trait VKey { type KV; spec fn key(&self) -> Self::KV; }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K: VKey> View for HashSet<K> { type V = Set<K::KV>; uninterp spec fn view(&self) -> Set<K::KV>; }
impl<K: VKey> HashSet<K> {
#[verifier::external_body] pub fn new() -> (r: Self) ensures forall|k: K::KV| !(#[trigger] r@.contains(k)) { unimplemented!() }
#[verifier::external_body] pub fn v_get(&self, k: &K) -> (r: Option<&K>) ensures r is Some == self@.contains(k.key()) { unimplemented!() }
#[verifier::external_body] pub fn v_contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(k.key()) { unimplemented!() }
#[verifier::external_body] pub fn v_insert(&mut self, k: K) -> (r: bool) ensures r == !old(self)@.contains(k.key()), sins(old(self)@, final(self)@, k.key()) { unimplemented!() }
}
/// mem::take of a value that is not used again
#[verifier::external_body] pub fn v_take<T>(x: &mut T) -> (r: T) ensures r == *old(x) { unimplemented!() }
pub open spec fn rotr<T>(s: Seq<T>, k: int) -> Seq<T> { s.subrange(s.len() - k, s.len() as int) + s.subrange(0, s.len() - k) }
pub trait VVecMore<T> { spec fn mv(&self) -> Seq<T>;
  fn v_reverse(&mut self) ensures final(self).mv() == old(self).mv().reverse();
  fn v_rotate_right(&mut self, k: usize) requires k <= old(self).mv().len() ensures final(self).mv() == rotr(old(self).mv(), k as int);
  fn v_last_mut(&mut self) -> (r: Option<&mut T>) ensures r is Some == (old(self).mv().len() > 0), r is Some ==> *r->0 == old(self).mv().last() && final(self).mv() == old(self).mv().update(old(self).mv().len() - 1, *final(r->0)), r is None ==> final(self).mv() == old(self).mv(); }
impl<T> VVecMore<T> for Vec<T> { open spec fn mv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_reverse(&mut self) { unimplemented!() } #[verifier::external_body] fn v_rotate_right(&mut self, k: usize) { unimplemented!() } #[verifier::external_body] fn v_last_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() } }
