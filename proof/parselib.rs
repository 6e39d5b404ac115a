// ---------------------------------------------------------------- nom results, regular expressions, maps
pub enum Needed { Unknown, Size }
pub enum IResult<T> { Done(Str, T), Error, Incomplete(Needed) }
/// a regular expression: its literal is id (proof/relang.py decides the facts that are stated about a literal)
pub struct Regex { pub id: Ghost<int> }
/// the leftmost-first match of expression `id` in `s`: begin and end
pub uninterp spec fn re_find(id: int, s: Txt) -> Option<(int, int)>;
pub uninterp spec fn re_groups(id: int, s: Txt) -> Seq<Txt>;
/// where the last group that took part ends
pub uninterp spec fn re_gend(id: int, s: Txt) -> int;
pub open spec fn re_at(id: int, s: Txt, b: int, e: int) -> bool { re_find(id, s) == Some((b, e)) }
/// a match is a prefix of the text
pub open spec fn re_anchored(id: int) -> bool { forall|s: Txt| (#[trigger] re_find(id, s)) is Some ==> (re_find(id, s)->0).0 == 0 }
/// every text has a match
pub open spec fn re_total(id: int) -> bool { forall|s: Txt| (#[trigger] re_find(id, s)) is Some }
/// a match begins and ends with d
pub open spec fn re_quoted(id: int, d: Txt) -> bool { forall|s: Txt| (#[trigger] re_find(id, s)) is Some ==> { let m = s.subrange((re_find(id, s)->0).0, (re_find(id, s)->0).1); m.len() >= 2 * d.len() && m == d + (m.subrange(d.len() as int, m.len() - d.len()) + d) } }
/// a match is the text d and then its first group
pub open spec fn re_after(id: int, d: Txt) -> bool { forall|s: Txt| (#[trigger] re_find(id, s)) is Some ==> re_groups(id, s).len() == 2 && re_groups(id, s)[0] == d + re_groups(id, s)[1] && re_gend(id, s) == (re_find(id, s)->0).1 }
/// the languages of values and quoted keys (written down in proof/relang.py): 1 integer, 2 float, 3 basic, 4 multi-line basic,
/// 5 literal, 6 multi-line literal (the last four without their quotes), 7 quoted key
pub uninterp spec fn lang(k: int, s: Txt) -> bool;
pub open spec fn re_whole(id: int, s: Txt) -> bool { re_at(id, s, 0, s.len() as int) }
/// the texts matched as a whole are those of language k
pub open spec fn re_lang(id: int, k: int) -> bool { forall|s: Txt| (#[trigger] re_find(id, s)) == Some((0int, s.len() as int)) <==> lang(k, s) }
/// the texts of language k are matched as a whole
pub open spec fn re_covers(id: int, k: int) -> bool { forall|s: Txt| lang(k, s) ==> (#[trigger] re_find(id, s)) == Some((0int, s.len() as int)) }
/// the white space that the text begins with
pub open spec fn blanks(t: Txt) -> int decreases t.len() { if t.len() == 0 || (t[0] != 32 && t[0] != 9) { 0 } else { 1 + blanks(t.skip(1)) } }
pub open spec fn opening(t: Txt) -> bool { t.len() > 0 && (t[0] == 91 || t[0] == 123) }
/// the white space at the beginning is matched, all of it
pub open spec fn re_blank(id: int) -> bool { forall|s: Txt| (#[trigger] re_find(id, s)) == Some((0int, blanks(s))) }
/// a match has a character, and begins with neither an array nor a table
pub open spec fn re_value(id: int) -> bool { forall|s: Txt| (#[trigger] re_find(id, s)) is Some ==> (re_find(id, s)->0).1 > 0 && !opening(s) }
/// a match is empty, or begins with white space or a line end
pub open spec fn re_wsp(id: int) -> bool { forall|s: Txt| (#[trigger] re_find(id, s)) is Some && (re_find(id, s)->0).1 > 0 ==> s[0] == 32 || s[0] == 9 || s[0] == 10 || s[0] == 13 }
/// a text between quotes d is matched as a whole exactly when it is of language k
pub open spec fn re_lang_in(id: int, d: Txt, k: int) -> bool { forall|t: Txt| #[trigger] lang(k, t) <==> re_whole(id, d + (t + d)) }
/// no text that begins with d is matched as a whole
pub open spec fn re_not_over(id: int, d: Txt) -> bool { forall|s: Txt| s.len() >= d.len() && s.take(d.len() as int) == d ==> (#[trigger] re_find(id, s)) != Some((0int, s.len() as int)) }
/// everything was read
pub open spec fn whole<T>(r: IResult<T>) -> bool { match r { IResult::Done(rest, _) => rest.b@.len() == 0, _ => false } }
impl Regex {
  #[verifier::external_body] pub fn find(&self, s: Str) -> (r: Option<(usize, usize)>)
    ensures r is Some <==> re_find(self.id@, s.b@) is Some, r matches Some((b, e)) ==> b <= e <= s.b@.len() && re_find(self.id@, s.b@) == Some((b as int, e as int)) { unimplemented!() }
  #[verifier::external_body] pub fn is_match(&self, s: Str) -> (r: bool) ensures r == re_find(self.id@, s.b@) is Some { unimplemented!() }
  #[verifier::external_body] pub fn captures(&self, s: Str) -> (r: Option<Captures>)
    ensures r is Some <==> re_find(self.id@, s.b@) is Some, r matches Some(c) ==> { let m = re_find(self.id@, s.b@)->0; 0 <= m.0 <= m.1 <= s.b@.len() && c.g@ == re_groups(self.id@, s.b@) && c.g@.len() > 0 && c.g@[0] == s.b@.subrange(m.0, m.1) && c.end@ == re_gend(self.id@, s.b@) && 0 <= c.end@ <= s.b@.len() } { unimplemented!() }
}
pub struct Captures { pub g: Ghost<Seq<Txt>>, pub end: Ghost<int> }
impl Captures {
  /// the texts of the groups that took part
  #[verifier::external_body] pub fn groups(&self) -> (r: Vec<Str>) ensures r@.len() == self.g@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).b@ == self.g@[i] { unimplemented!() }
  #[verifier::external_body] pub fn groups_end(&self) -> (r: usize) ensures r == self.end@ { unimplemented!() }
}
pub open spec fn char_end(s: Txt, r: Seq<(usize, char)>, i: int) -> int { if i + 1 < r.len() { r[i + 1].0 as int } else { s.len() as int } }
impl Str {
  #[verifier::external_body] pub fn starts_with(&self, s: Str) -> (r: bool) ensures r == (s.b@.len() <= self.b@.len() && self.b@.take(s.b@.len() as int) == s.b@) { unimplemented!() }
  #[verifier::external_body] pub fn ends_with(&self, s: Str) -> (r: bool) ensures r == (s.b@.len() <= self.b@.len() && self.b@.skip(self.b@.len() - s.b@.len()) == s.b@) { unimplemented!() }
  /// the characters and where they begin
  #[verifier::external_body] pub fn char_list(&self) -> (r: Vec<(usize, char)>) ensures r@.len() == 0 <==> self.b@.len() == 0, r@.len() > 0 ==> r@[0].0 == 0,
    forall|i: int| 0 <= i < r@.len() ==> r@[i].0 < #[trigger] char_end(self.b@, r@, i) <= self.b@.len() && char_bytes(r@[i].1) == self.b@.subrange(r@[i].0 as int, char_end(self.b@, r@, i)) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct KMap<V> { v: std::marker::PhantomData<V> }
impl<V> View for KMap<V> { type V = Map<Txt, V>; uninterp spec fn view(&self) -> Map<Txt, V>; }
impl<V> VClone for KMap<V> { #[verifier::external_body] fn vclone(&self) -> (r: KMap<V>) { unimplemented!() } }
impl<V> Rf for KMap<V> { fn rf(&self) -> (r: &KMap<V>) { self } fn rfm(&mut self) -> (r: &mut KMap<V>) { self } }
impl<V> KMap<V> {
  #[verifier::external_body] pub fn new() -> (r: KMap<V>) ensures r@ == Map::<Txt, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: Str, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.b@, v), r == (if old(self)@.dom().contains(k.b@) { Some(old(self)@[k.b@]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: Str) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(k.b@), r matches Some(v) ==> *v == self@[k.b@] { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: Str) -> (r: bool) ensures r == self@.dom().contains(k.b@) { unimplemented!() }
}
/// an occupied entry holds the value it stands for, a vacant one the place where a value can be put
pub struct OccupiedEntry<'a, V> { pub v: &'a mut V }
pub struct VacantEntry<'a, V> { pub s: &'a mut Option<V> }
pub enum Entry<'a, V> { Occupied(OccupiedEntry<'a, V>), Vacant(VacantEntry<'a, V>) }
impl<'a, V> OccupiedEntry<'a, V> {
  pub fn into_mut(self) -> (r: &'a mut V) ensures *r == *old(self.v), *final(r) == *final(self.v) { self.v }
  pub fn get_mut(&mut self) -> (r: &mut V) ensures *r == *old(self).v, *final(self).v == *final(r), *final(final(self).v) == *final(old(self).v) { &mut *self.v }
  #[verifier::external_body] pub fn insert(&mut self, x: V) -> (r: V) ensures r == *old(self).v, *final(self).v == x, *final(final(self).v) == *final(old(self).v) { unimplemented!() }
  pub fn get(&self) -> (r: &V) ensures *r == *old(self.v) { &*self.v }
}
impl<'a, V> VacantEntry<'a, V> {
  #[verifier::external_body] pub fn insert(self, x: V) -> (r: &'a mut V) ensures *r == x, *final(self.s) == Some(*final(r)) { unimplemented!() }
}
impl<'a, V> Entry<'a, V> {
  pub fn or_insert(self, x: V) -> (r: &'a mut V)
    ensures self is Occupied ==> *r == *old(self->Occupied_0.v) && *final(r) == *final(self->Occupied_0.v), self is Vacant ==> *r == x && *final(self->Vacant_0.s) == Some(*final(r)) {
    match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(w) => w.insert(x) }
  }
}
impl<V> KMap<V> {
  #[verifier::external_body] pub fn entry(&mut self, k: Str) -> (r: Entry<'_, V>)
    ensures match r { Entry::Occupied(o) => old(self)@.dom().contains(k.b@) && *o.v == old(self)@[k.b@] && final(self)@ == old(self)@.insert(k.b@, *final(o.v)),
       Entry::Vacant(w) => !old(self)@.dom().contains(k.b@) && *w.s == None::<V> && final(self)@ == (match *final(w.s) { Some(x) => old(self)@.insert(k.b@, x), None => old(self)@ }) } { unimplemented!() }
  #[verifier::external_body] pub fn get_mut(&mut self, k: Str) -> (r: Option<&mut V>)
    ensures match r { Some(v) => old(self)@.dom().contains(k.b@) && *v == old(self)@[k.b@] && final(self)@ == old(self)@.insert(k.b@, *final(v)), None => !old(self)@.dom().contains(k.b@) && final(self)@ == old(self)@ } { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: Str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.b@), r == (if old(self)@.dom().contains(k.b@) { Some(old(self)@[k.b@]) } else { None }) { unimplemented!() }
}
pub trait ExtV<T> { fn extend_vec(&mut self, v: Vec<T>); }
impl<T> ExtV<T> for Vec<T> { #[verifier::external_body] fn extend_vec(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() } }
// ---------------------------------------------------------------- keys
pub open spec fn keybyte(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 || 48 <= b <= 57 || b == 45 || b == 95 }
/// a bare key
pub open spec fn bare(s: Txt) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> keybyte(#[trigger] s[i]) }
/// one key, bare or quoted
pub open spec fn one_key(s: Txt) -> bool { bare(s) || lang(7, s) }
pub proof fn char_is_keybyte(c: char) ensures char_bytes(c).len() >= 1, keybyte(char_bytes(c)[0]) <==> (c as u32) < 128 && keybyte((c as u32) as u8), (c as u32) < 128 ==> char_bytes(c) == seq![(c as u32) as u8] {
  let n = c as u32; if 0x80 <= n < 0x800 { } else if 0x800 <= n && n < 0x10000 { } }
pub open spec fn mlq(t: StrType) -> Txt { match t { StrType::Basic => seq![34u8], StrType::MLBasic => seq![34u8, 34, 34], StrType::Literal => seq![39u8], StrType::MLLiteral => seq![39u8, 39, 39] } }
pub open spec fn str_lang(t: StrType) -> int { match t { StrType::Basic => 3, StrType::MLBasic => 4, StrType::Literal => 5, StrType::MLLiteral => 6 } }
