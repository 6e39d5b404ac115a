#![allow(unused)]
use vstd::prelude::*;
verus! {
pub mod base { use vstd::prelude::*;
pub broadcast proof fn str_ext(a: Str) ensures mk(#[trigger] a.b@) == a { }
pub broadcast proof fn seq_empty(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast proof fn seq_empty2(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert(Seq::<u8>::empty() + a =~= a); }
pub broadcast proof fn none_add<T>(a: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + a) == a { assert(Seq::<T>::empty() + a =~= a); }
pub broadcast proof fn seq_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn seq_none(a: Seq<u8>) requires a.len() == 0 ensures #[trigger] a.len() == 0, a == Seq::<u8>::empty() { assert(a =~= Seq::<u8>::empty()); }
pub broadcast proof fn split_at(s: Seq<u8>, n: int) requires 0 <= n <= s.len() ensures #![trigger s.subrange(0, n), s.skip(n)] s.subrange(0, n) + s.skip(n) == s { assert(s.subrange(0, n) + s.skip(n) =~= s); }
//@broadcast base::split_at base::all_push base::all_none base::seq_none base::str_ext base::seq_assoc base::seq_empty base::seq_empty2 base::num_small
// ---------------------------------------------------------------- texts
// Every text type of the crate (String, &str, Cow<str>) becomes Str: its UTF-8 bytes.
#[derive(Clone, Copy)]
pub struct Str { pub b: Ghost<Seq<u8>> }
pub type Txt = Seq<u8>;
pub open spec fn mk(t: Txt) -> Str { Str { b: Ghost(t) } }
impl View for Str { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.b@ } }
pub trait AsS { spec fn ss(&self) -> Txt; fn as_s(&self) -> (r: Str) ensures r.b@ == self.ss(); }
impl AsS for Str { open spec fn ss(&self) -> Txt { self.b@ } fn as_s(&self) -> (r: Str) { Str { b: Ghost(self.b@) } } }
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn digits(s: Txt) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn num(s: Txt) -> int decreases s.len() { if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + (s.last() as int - 48) } }
pub proof fn num_pos(s: Txt) requires digits(s) ensures num(s) >= 0 decreases s.len() { if s.len() > 0 { num_pos(s.drop_last()); } }
pub open spec fn dec(n: int) -> Txt decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn zeros(n: nat) -> Txt { Seq::new(n, |i: int| 48u8) }
pub open spec fn pad(s: Txt, n: int) -> Txt { if s.len() >= n { s } else { zeros((n - s.len()) as nat) + s } }
pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn char_bytes(c: char) -> Txt {
  let n = c as u32;
  if n < 0x80 { seq![n as u8] } else if n < 0x800 { seq![(0xc0 + n / 64) as u8, (0x80 + n % 64) as u8] }
  else if n < 0x10000 { seq![(0xe0 + n / 4096) as u8, (0x80 + n / 64 % 64) as u8, (0x80 + n % 64) as u8] }
  else { seq![(0xf0 + n / 262144) as u8, (0x80 + n / 4096 % 64) as u8, (0x80 + n / 64 % 64) as u8, (0x80 + n % 64) as u8] }
}
#[verifier::external_body] pub fn any_text() -> (r: Str) { unimplemented!() }
#[verifier::external_body] pub fn unset<T>() -> T { unimplemented!() }
#[verifier::external_body] pub fn not_reached<T>() -> T requires false { unimplemented!() }
/// a panic that the contract does not rule out: nothing is claimed about a call that ends there
#[verifier::external_body] pub fn stuck<T>() -> T ensures false { unimplemented!() }
/// counting lines and elements: nothing is claimed about counters that overflow
#[verifier::external_body] pub fn sum(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
impl Str {
  pub fn empty() -> (r: Str) ensures r.b@ == Seq::<u8>::empty() { Str { b: Ghost(Seq::empty()) } }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.b@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.b@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn at(&self, i: usize) -> (r: u8) requires i < self.b@.len() ensures r == self.b@[i as int] { unimplemented!() }
  pub fn push_str(&mut self, s: Str) ensures final(self).b@ == old(self).b@ + s.b@ { self.b = Ghost(self.b@ + s.b@); }
  pub fn push_ch(&mut self, c: char) ensures final(self).b@ == old(self).b@ + char_bytes(c) { self.b = Ghost(self.b@ + char_bytes(c)); }
  pub fn sl(&self, i: usize, j: usize) -> (r: Str) requires i <= j <= self.b@.len() ensures r.b@ == self.b@.subrange(i as int, j as int) { Str { b: Ghost(self.b@.subrange(i as int, j as int)) } }
  pub fn sl_from(&self, i: usize) -> (r: Str) requires i <= self.b@.len() ensures r.b@ == self.b@.skip(i as int) { Str { b: Ghost(self.b@.skip(i as int)) } }
  pub fn sl_to(&self, j: usize) -> (r: Str) requires j <= self.b@.len() ensures r.b@ == self.b@.take(j as int) { Str { b: Ghost(self.b@.take(j as int)) } }
  pub fn truncate(&mut self, j: usize) ensures final(self).b@ == (if j <= old(self).b@.len() { old(self).b@.take(j as int) } else { old(self).b@ }) { self.b = Ghost(if j <= self.b@.len() { self.b@.take(j as int) } else { self.b@ }); }
  #[verifier::external_body] pub fn to_lowercase(&self) -> (r: Str) ensures ascii(self.b@) ==> r.b@ == self.b@.map_values(|b: u8| lower(b)), !ascii(self.b@) ==> !word_true(r.b@) && !word_false(r.b@) { unimplemented!() }
}
pub open spec fn ascii(s: Txt) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
pub open spec fn word_true(s: Txt) -> bool { s =~= seq![116u8, 114, 117, 101] }
pub open spec fn word_false(s: Txt) -> bool { s =~= seq![102u8, 97, 108, 115, 101] }
#[verifier::external_body] pub fn parse_usize(s: Str) -> (r: Result<usize, ()>)
  ensures s.b@.len() > 0 && digits(s.b@) && num(s.b@) <= usize::MAX ==> r == Ok::<usize, ()>(num(s.b@) as usize) { unimplemented!() }
// ---------------------------------------------------------------- equality, copies, cells
pub trait Eqx: Sized { fn eqx(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
impl Eqx for Str { #[verifier::external_body] fn eqx(&self, o: &Str) -> (r: bool) { unimplemented!() } }
impl Eqx for usize { fn eqx(&self, o: &usize) -> (r: bool) { *self == *o } }
impl Eqx for u8 { fn eqx(&self, o: &u8) -> (r: bool) { *self == *o } }
impl Eqx for bool { fn eqx(&self, o: &bool) -> (r: bool) { *self == *o } }
impl Eqx for char { fn eqx(&self, o: &char) -> (r: bool) { *self == *o } }
impl<T: Eqx> Eqx for Option<T> { fn eqx(&self, o: &Option<T>) -> (r: bool) { match (self, o) { (Some(a), Some(b)) => a.eqx(b), (None, None) => true, _ => false } } }
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
macro_rules! copies { ($($g:ident)*; $t:ty) => { verus! { impl<$($g),*> VClone for $t { #[verifier::external_body] fn vclone(&self) -> (r: $t) { unimplemented!() } }
impl<$($g),*> Rf for $t { fn rf(&self) -> (r: &$t) { self } fn rfm(&mut self) -> (r: &mut $t) { self } } } } }
copies!(; Str); copies!(; usize); copies!(; bool); copies!(; char); copies!(T; Vec<T>); copies!(T; Option<T>); copies!(A B; (A, B)); 
pub trait Rf: Sized { fn rf(&self) -> (r: &Self) ensures *r == *self; fn rfm(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r); }
pub trait CGet: Sized { fn cget(&self) -> (r: Self) ensures r == *self; fn cset(&mut self, v: Self) ensures *final(self) == v; }
impl CGet for usize { fn cget(&self) -> (r: usize) { *self } fn cset(&mut self, v: usize) { *self = v; } }
impl CGet for bool { fn cget(&self) -> (r: bool) { *self } fn cset(&mut self, v: bool) { *self = v; } }
// ---------------------------------------------------------------- formatting
pub struct Formatter { pub o: Ghost<Txt> }
impl View for Formatter { type V = Txt; open spec fn view(&self) -> Txt { self.o@ } }
pub trait Disp {
  spec fn wf(&self) -> bool;
  spec fn render(&self) -> Txt;
  fn fmt(&self, f: &mut Formatter) -> (r: Result<(), ()>) requires self.wf() ensures r is Ok, final(f).o@ == old(f).o@ + self.render();
}
pub trait PadN: Disp {}
impl PadN for usize {}
impl PadN for u64 {}
pub trait Pad0: PadN { fn pad0r(&self, f: &mut Formatter, n: usize) requires self.wf() ensures final(f).o@ == old(f).o@ + (if self.render().len() >= n { self.render() } else { self.render() + zeros((n - self.render().len()) as nat) });
  fn pad0(&self, f: &mut Formatter, n: usize) requires self.wf() ensures final(f).o@ == old(f).o@ + pad(self.render(), n as int); }
impl<T: PadN> Pad0 for T { #[verifier::external_body] fn pad0r(&self, f: &mut Formatter, n: usize) { unimplemented!() }
  #[verifier::external_body] fn pad0(&self, f: &mut Formatter, n: usize) { unimplemented!() } }
pub trait ToS: Disp { fn to_s(&self) -> (r: Str) requires self.wf() ensures r.b@ == self.render(); }
impl<T: Disp> ToS for T { fn to_s(&self) -> (r: Str) { let mut f = Formatter::new(); let _ = self.fmt(&mut f); proof { assert(f.o@ =~= self.render()); } f.finish() } }
impl Disp for Str { open spec fn wf(&self) -> bool { true } open spec fn render(&self) -> Txt { self.b@ } fn fmt(&self, f: &mut Formatter) -> (r: Result<(), ()>) { f.o = Ghost(f.o@ + self.b@); Ok(()) } }
impl Disp for usize { open spec fn wf(&self) -> bool { true } open spec fn render(&self) -> Txt { dec(*self as int) } fn fmt(&self, f: &mut Formatter) -> (r: Result<(), ()>) { f.o = Ghost(f.o@ + dec(*self as int)); Ok(()) } }
impl Disp for u64 { open spec fn wf(&self) -> bool { true } open spec fn render(&self) -> Txt { dec(*self as int) } fn fmt(&self, f: &mut Formatter) -> (r: Result<(), ()>) { f.o = Ghost(f.o@ + dec(*self as int)); Ok(()) } }
impl Disp for i64 { open spec fn wf(&self) -> bool { true } open spec fn render(&self) -> Txt { if *self < 0 { seq![45u8] + dec(-(*self as int)) } else { dec(*self as int) } } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), ()>) { unimplemented!() } }
pub uninterp spec fn f64_text(f: f64) -> Txt;
impl Disp for f64 { open spec fn wf(&self) -> bool { true } open spec fn render(&self) -> Txt { f64_text(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), ()>) { unimplemented!() } }
pub open spec fn bool_text(b: bool) -> Txt { if b { seq![116u8, 114, 117, 101] } else { seq![102u8, 97, 108, 115, 101] } }
impl Disp for bool { open spec fn wf(&self) -> bool { true } open spec fn render(&self) -> Txt { bool_text(*self) } fn fmt(&self, f: &mut Formatter) -> (r: Result<(), ()>) { f.o = Ghost(f.o@ + bool_text(*self)); Ok(()) } }
impl Formatter {
  pub fn new() -> (r: Formatter) ensures r.o@ == Seq::<u8>::empty() { Formatter { o: Ghost(Seq::empty()) } }
  pub fn finish(&self) -> (r: Str) ensures r.b@ == self.o@ { Str { b: Ghost(self.o@) } }
}

// ---------------------------------------------------------------- numbers
pub proof fn dec_num(n: int) requires n >= 0 ensures digits(dec(n)), num(dec(n)) == n, dec(n).len() >= 1 decreases n {
  if n >= 10 { dec_num(n / 10); let d = dec(n); assert(d.drop_last() =~= dec(n / 10)); assert forall|i: int| 0 <= i < d.len() implies digit(#[trigger] d[i]) by { if i < d.len() - 1 { assert(d[i] == dec(n / 10)[i]); } } }
  else { let d = dec(n); assert(d.drop_last() =~= Seq::<u8>::empty()); assert(num(d.drop_last()) == 0); }
}
pub open spec fn pow10(k: nat) -> int decreases k { if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }
pub proof fn dec_len(n: int, k: nat) requires n >= 0, k >= 1 ensures dec(n).len() <= k <==> n < pow10(k) decreases k {
  reveal_with_fuel(pow10, 2);
  if k == 1 { if n >= 10 { dec_num(n / 10); } }
  else { if n < 10 { pow10_big((k - 1) as nat); } else { dec_len(n / 10, (k - 1) as nat); assert(pow10(k) == 10 * pow10((k - 1) as nat)); assert(n < 10 * pow10((k - 1) as nat) <==> n / 10 < pow10((k - 1) as nat)); } }
}
pub proof fn pow10_big(k: nat) ensures pow10(k) >= 1 decreases k { if k > 0 { pow10_big((k - 1) as nat); } }
pub proof fn zeros_num(s: Txt, n: nat) requires digits(s) ensures num(zeros(n) + s) == num(s), digits(zeros(n) + s) decreases s.len() {
  let t = zeros(n) + s;
  assert forall|i: int| 0 <= i < t.len() implies digit(#[trigger] t[i]) by { if i < n { assert(t[i] == 48); } else { assert(t[i] == s[i - n]); } }
  if s.len() == 0 { zeros_only(n); assert(t =~= zeros(n)); } else { assert(t.drop_last() =~= zeros(n) + s.drop_last()); zeros_num(s.drop_last(), n); }
}
pub proof fn zeros_only(n: nat) ensures num(zeros(n)) == 0 decreases n { if n > 0 { assert(zeros(n).drop_last() =~= zeros((n - 1) as nat)); zeros_only((n - 1) as nat); } }
/// a number padded with zeros to k digits: a text of k digits exactly when it is below 10^k
pub proof fn pad_dec(n: int, k: nat) requires n >= 0, k >= 1 ensures digits(pad(dec(n), k as int)), num(pad(dec(n), k as int)) == n, pad(dec(n), k as int).len() == k <==> n < pow10(k) {
  dec_num(n); dec_len(n, k);
  if dec(n).len() < k { zeros_num(dec(n), (k - dec(n).len()) as nat); }
}
pub proof fn num2(s: Txt) requires digits(s), s.len() == 2 ensures 0 <= num(s) <= 99 { reveal_with_fuel(num, 3); assert(s.drop_last().drop_last() =~= Seq::<u8>::empty()); assert(digit(s[0]) && digit(s[1])); }
pub proof fn num4(s: Txt) requires digits(s), s.len() == 4 ensures 0 <= num(s) <= 9999 { reveal_with_fuel(num, 5); assert(digit(s[0]) && digit(s[1]) && digit(s[2]) && digit(s[3])); }
pub broadcast proof fn num_small(s: Txt) requires digits(s), s.len() == 2 || s.len() == 4 ensures 0 <= #[trigger] num(s) <= 9999 { if s.len() == 2 { num2(s); } else { num4(s); } }
// ---------------------------------------------------------------- lists of printable things
/// the texts of the first n elements
#[verifier::opaque] pub open spec fn cat<T: Disp>(s: Seq<T>, n: int) -> Txt decreases n { if n <= 0 || n > s.len() { seq![] } else { cat(s, n - 1) + s[n - 1].render() } }
pub open spec fn all<T: Disp>(s: Seq<T>) -> Txt { cat(s, s.len() as int) }
pub proof fn cat_next<T: Disp>(s: Seq<T>, n: int) requires 0 <= n < s.len() ensures cat(s, n + 1) == cat(s, n) + s[n].render() { reveal_with_fuel(cat, 2); }
pub proof fn cat_none<T: Disp>(s: Seq<T>) ensures cat(s, 0) == Seq::<u8>::empty() { reveal_with_fuel(cat, 1); }
pub proof fn cat_same<T: Disp>(a: Seq<T>, b: Seq<T>, n: int) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures cat(a, n) == cat(b, n) decreases n { reveal_with_fuel(cat, 2); if n > 0 { cat_same(a, b, n - 1); } }
pub broadcast proof fn all_push<T: Disp>(s: Seq<T>, x: T) ensures #[trigger] all(s.push(x)) == all(s) + x.render() { cat_same(s, s.push(x), s.len() as int); cat_next(s.push(x), s.len() as int); }
pub broadcast proof fn all_none<T: Disp>(s: Seq<T>) requires s.len() == 0 ensures #[trigger] all(s) == Seq::<u8>::empty() { cat_none(s); }
pub broadcast proof fn all_add<T: Disp>(a: Seq<T>, b: Seq<T>) ensures #[trigger] all(a + b) == all(a) + all(b) decreases b.len() {
  if b.len() == 0 { assert(a + b =~= a); cat_none(b); seq_empty(all(a)); } else { all_add(a, b.drop_last()); assert(a + b =~= (a + b.drop_last()).push(b.last())); assert(b =~= b.drop_last().push(b.last())); all_push(a + b.drop_last(), b.last()); all_push(b.drop_last(), b.last()); seq_assoc(all(a), all(b.drop_last()), b.last().render()); }
}
// ---------------------------------------------------------------- lists of texts
pub open spec fn occurs(v: Seq<Str>, k: Txt) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).b@ == k }
pub broadcast proof fn has_left(a: Seq<Str>, b: Seq<Str>, k: Txt) requires occurs(a, k) ensures #![trigger occurs(a, k), a + b] occurs(a + b, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).b@ == k; assert((a + b)[i].b@ == k); }
pub broadcast proof fn has_right(a: Seq<Str>, b: Seq<Str>, k: Txt) requires occurs(b, k) ensures #![trigger occurs(b, k), a + b] occurs(a + b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).b@ == k; assert((a + b)[a.len() + i].b@ == k); }
pub broadcast proof fn has_kept(a: Seq<Str>, x: Str, k: Txt) requires occurs(a, k) ensures #![trigger occurs(a, k), a.push(x)] occurs(a.push(x), k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).b@ == k; assert(a.push(x)[i].b@ == k); }
pub broadcast proof fn has_pushed(a: Seq<Str>, x: Str) ensures occurs(#[trigger] a.push(x), x.b@) { assert(a.push(x)[a.len() as int] == x); }
pub broadcast group has_lemmas { has_left, has_right, has_kept, has_pushed }
} // mod base
use base::*;
