//@props C12,C13
//@types TOMLError Options
// ---------------------------------------------------------------- the outside world
pub struct Vars { pub x: Ghost<int> }
pub struct Error { pub x: Ghost<int> }
pub uninterp spec fn error_text(e: Error) -> Txt;
impl Disp for Error { open spec fn wf(&self) -> bool { true } open spec fn render(&self) -> Txt { error_text(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), ()>) { unimplemented!() } }
/// what the command line says: an option is there, and its argument (pirate, trusted)
pub struct Matches { pub x: Ghost<int> }
impl Matches {
  pub uninterp spec fn given(&self, o: Txt) -> bool;
  pub uninterp spec fn arg(&self, o: Txt) -> Option<Txt>;
  #[verifier::external_body] pub fn has_match(&self, o: Str) -> (r: bool) ensures r == self.given(o.b@) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, o: Str) -> (r: Option<Str>) ensures r is Some <==> self.arg(o.b@) is Some, r matches Some(a) ==> a.b@ == self.arg(o.b@)->0 { unimplemented!() }
}
/// the files, what was printed, and whether a write has failed
pub struct World { pub files: Ghost<Map<Txt, Txt>>, pub out: Ghost<Txt>, pub first: Ghost<Map<Txt, Txt>>, pub failed: Ghost<bool> }
impl World {
  /// no file is other than it was, unless writing one has failed
  pub open spec fn kept(&self) -> bool { self.failed@ || self.files@ == self.first@ }
  pub open spec fn same(&self, o: World) -> bool { self.files@ == o.files@ && self.first@ == o.first@ && self.failed@ == o.failed@ }
}
/// leaving with an error: only with the files as they were
#[verifier::external_body] pub fn exit(w: &mut World) requires old(w).kept() ensures false { unimplemented!() }
#[verifier::external_body] pub fn usage(w: &mut World, v: &Vars) ensures final(w).same(*old(w)) { unimplemented!() }
pub fn print_text(w: &mut World, t: Str) ensures final(w).same(*old(w)), final(w).out@ == old(w).out@ + t.b@ { w.out = Ghost(w.out@ + t.b@); }
pub struct File { pub name: Ghost<Txt> }
#[verifier::external_body] pub fn file_create(w: &mut World, p: Str) -> (r: Result<File, Error>)
  ensures final(w).first@ == old(w).first@, final(w).out@ == old(w).out@, match r { Ok(f) => f.name@ == p.b@ && final(w).files@ == old(w).files@.insert(p.b@, seq![]) && final(w).failed@ == old(w).failed@, Err(_) => final(w).files@ == old(w).files@ && final(w).failed@ == old(w).failed@ } { unimplemented!() }
#[verifier::external_body] pub fn file_open(w: &mut World, p: Str) -> (r: Result<File, Error>) ensures *final(w) == *old(w), r matches Ok(f) ==> f.name@ == p.b@ && old(w).files@.dom().contains(p.b@) { unimplemented!() }
impl File {
  #[verifier::external_body] pub fn write_all(&mut self, w: &mut World, t: Str) -> (r: Result<(), Error>)
    ensures final(self).name@ == old(self).name@, final(w).first@ == old(w).first@, final(w).out@ == old(w).out@, match r { Ok(_) => final(w).files@ == old(w).files@.insert(old(self).name@, old(w).files@[old(self).name@] + t.b@) && final(w).failed@ == old(w).failed@, Err(_) => final(w).failed@ } { unimplemented!() }
  #[verifier::external_body] pub fn sync_all(&self, w: &mut World) -> (r: Result<(), Error>) ensures final(w).first@ == old(w).first@, final(w).out@ == old(w).out@, final(w).files@ == old(w).files@, match r { Ok(_) => final(w).failed@ == old(w).failed@, Err(_) => final(w).failed@ } { unimplemented!() }
  #[verifier::external_body] pub fn read_to_string(&mut self, w: &mut World, t: &mut Str) -> (r: Result<(), Error>) ensures *final(w) == *old(w), r is Ok ==> final(t).b@ == old(t).b@ + old(w).files@[old(self).name@] { unimplemented!() }
}
/// the fields of a list separated by commas (the csv crate, trusted)
pub uninterp spec fn fields(t: Txt) -> Option<Seq<Txt>>;
pub open spec fn texts(v: Seq<Str>, f: Seq<Txt>) -> bool { v.len() == f.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).b@ == f[i] }
//@extern kit::csv_to_vec
  ensures match r { Ok(v) => v@.len() <= 0x7fff_ffff_ffff_ffff && fields(csv.b@) is Some && texts(v@, fields(csv.b@)->0), Err(_) => fields(csv.b@) is None }
//@endfn
// ---------------------------------------------------------------- options
/// an option's argument, or what stands for it
pub open spec fn chosen(m: Matches, o: Txt, d: Txt) -> Txt { if m.given(o) && m.arg(o) is Some { m.arg(o)->0 } else { d } }
//@fn kit::Options::new world errtext props=C12,C13
  requires old(w).kept()
  ensures *final(w) == *old(w),
    r.true_vals.b@ == chosen(*matches, seq![115u8, 101u8, 116u8, 45u8, 116u8, 114u8, 117u8, 101u8], seq![116u8, 114u8, 117u8, 101u8]),
    r.false_vals.b@ == chosen(*matches, seq![115u8, 101u8, 116u8, 45u8, 102u8, 97u8, 108u8, 115u8, 101u8], seq![102u8, 97u8, 108u8, 115u8, 101u8]),
    r.separator.b@ == chosen(*matches, seq![115u8, 101u8, 112u8, 97u8, 114u8, 97u8, 116u8, 111u8, 114u8], seq![44u8, 32u8]),
    r.arr_start.b@ == chosen(*matches, seq![97u8, 114u8, 114u8, 97u8, 121u8, 45u8, 98u8, 101u8, 103u8, 105u8, 110u8], seq![91u8]),
    r.arr_end.b@ == chosen(*matches, seq![97u8, 114u8, 114u8, 97u8, 121u8, 45u8, 101u8, 110u8, 100u8], seq![93u8]),
    r.arr_sep.b@ == chosen(*matches, seq![97u8, 114u8, 114u8, 97u8, 121u8, 45u8, 115u8, 101u8, 112u8, 97u8, 114u8, 97u8, 116u8, 111u8, 114u8], seq![44u8, 32u8]),
    r.arr_len == matches.given(seq![97u8, 114u8, 114u8, 97u8, 121u8, 45u8, 108u8, 101u8, 110u8, 103u8, 116u8, 104u8]),
    r.strip_quotes == matches.given(seq![115u8, 116u8, 114u8, 105u8, 112u8, 45u8, 113u8, 117u8, 111u8, 116u8, 101u8, 115u8]),
    r.quiet == matches.given(seq![113u8, 117u8, 105u8, 101u8, 116u8]),
    r.print_doc == matches.given(seq![112u8, 114u8, 105u8, 110u8, 116u8, 45u8, 100u8, 111u8, 99u8]),
//@endfn
// ---------------------------------------------------------------- queries
pub open spec fn value_at(m: Map<Txt, HashValue>, k: Txt) -> bool { m.dom().contains(k) && m[k].value is Some && m[k].value->0 != TOMLValue::Table }
/// the first n parts, each but the last of all followed by the separator
#[verifier::opaque] pub open spec fn parts(p: Seq<Txt>, sep: Txt, n: int) -> Txt decreases n { if n <= 0 { seq![] } else { parts(p, sep, n - 1) + (p[n - 1] + (if n < p.len() { sep } else { seq![] })) } }
pub open spec fn join(p: Seq<Txt>, sep: Txt) -> Txt { parts(p, sep, p.len() as int) }
pub proof fn part_none(p: Seq<Txt>, sep: Txt) ensures parts(p, sep, 0) == Seq::<u8>::empty() { reveal_with_fuel(parts, 1); }
pub proof fn part_next(p: Seq<Txt>, sep: Txt, n: int) requires 0 <= n ensures parts(p, sep, n + 1) == parts(p, sep, n) + (p[n] + (if n + 1 < p.len() { sep } else { seq![] })) { reveal_with_fuel(parts, 2); }
pub open spec fn from_left(t: Txt, c: Seq<char>) -> Txt decreases t.len() { if t.len() > 0 && exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]) as u32 == t[0] as u32 { from_left(t.skip(1), c) } else { t } }
pub open spec fn from_right(t: Txt, c: Seq<char>) -> Txt decreases t.len() { if t.len() > 0 && exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]) as u32 == t.last() as u32 { from_right(t.drop_last(), c) } else { t } }
/// without these characters (all of them ASCII) at its ends
pub open spec fn trimmed(t: Txt, c: Seq<char>) -> Txt { from_right(from_left(t, c), c) }
#[verifier::external_body] pub fn seq_of(c: &[char]) -> (r: Vec<char>) ensures r@ == c@ { unimplemented!() }
impl Str { #[verifier::external_body] pub fn trim_chars(&self, c: Vec<char>) -> (r: Str) requires forall|i: int| 0 <= i < c@.len() ==> ((#[trigger] c@[i]) as u32) < 128u32 ensures r.b@ == trimmed(self.b@, c@) { unimplemented!() } }
pub open spec fn shown(t: Txt, strip: bool) -> Txt { if strip { trimmed(t, seq!['\'', '"']) } else { t } }
/// the text of the value of a node
pub open spec fn node_text(t: TOMLValue) -> Txt { text(choose|v: Value| means(t, v)) }
pub proof fn each_same(v: Seq<Value>, w: Seq<Value>, n: int) requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> text(#[trigger] v[i]) == text(w[i]), 0 <= n <= v.len() ensures each(v, n) == each(w, n) decreases n { if n == 0 { each_none(v, seq![]); each_none(w, seq![]); } else { each_same(v, w, n - 1); each_next(v, n - 1); each_next(w, n - 1); } }
pub proof fn each_kv_same(v: Seq<(Str, Value)>, w: Seq<(Str, Value)>, n: int) requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> text((#[trigger] v[i]).1) == text(w[i].1) && v[i].0 == w[i].0, 0 <= n <= v.len() ensures each_kv(v, n) == each_kv(w, n) decreases n { if n == 0 { each_none(seq![], v); each_none(seq![], w); } else { each_kv_same(v, w, n - 1); each_kv_next(v, n - 1); each_kv_next(w, n - 1); } }
pub proof fn list_is(v: Vec<Value>) ensures text(Value::Array(v)) == ch('[') + (list(v@) + ch(']')), v@.len() == 0 ==> list(v@) == Seq::<u8>::empty(), v@.len() > 0 ==> list(v@) == each(v@, v@.len() - 1) + text(v@[v@.len() - 1]) { reveal_with_fuel(text, 2); reveal_with_fuel(each, 2); reveal_with_fuel(each_kv, 2); }
pub proof fn list_kv_is(v: Vec<(Str, Value)>) ensures text(Value::InlineTable(v)) == ch('{') + (list_kv(v@) + ch('}')), v@.len() == 0 ==> list_kv(v@) == Seq::<u8>::empty(), v@.len() > 0 ==> list_kv(v@) == each_kv(v@, v@.len() - 1) + (v@[v@.len() - 1].0.b@ + (equals() + text(v@[v@.len() - 1].1))) { reveal_with_fuel(text, 2); reveal_with_fuel(each, 2); reveal_with_fuel(each_kv, 2); }
pub proof fn list_same(a: Vec<Value>, b: Vec<Value>) requires a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> text(#[trigger] a@[i]) == text(b@[i]) ensures text(Value::Array(a)) == text(Value::Array(b)) {
  let n = a@.len() - 1; if n >= 0 { each_same(a@, b@, n); assert(text(a@[n]) == text(b@[n])); } list_is(a); list_is(b); }
pub proof fn list_kv_same(a: Vec<(Str, Value)>, b: Vec<(Str, Value)>) requires a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> text((#[trigger] a@[i]).1) == text(b@[i].1) && a@[i].0 == b@[i].0 ensures text(Value::InlineTable(a)) == text(Value::InlineTable(b)) {
  let n = a@.len() - 1; if n >= 0 { each_kv_same(a@, b@, n); assert(text(a@[n].1) == text(b@[n].1)); } list_kv_is(a); list_kv_is(b); }
pub proof fn same_text(t: TOMLValue, v: Value, w: Value) requires means(t, v), means(t, w) ensures text(v) == text(w) decreases v {
  match (v, w) {
    (Value::Array(a), Value::Array(b)) => { assert forall|i: int| 0 <= i < a@.len() implies text(#[trigger] a@[i]) == text(b@[i]) by { same_text(t->Array_0.values@[i].val, a@[i], b@[i]); } list_same(a, b); }
    (Value::InlineTable(a), Value::InlineTable(b)) => { assert forall|i: int| 0 <= i < a@.len() implies text((#[trigger] a@[i]).1) == text(b@[i].1) && a@[i].0 == b@[i].0 by { same_text(t->InlineTable_0.keyvals@[i].keyval.val, a@[i].1, b@[i].1); } list_kv_same(a, b); }
    _ => {}
  }
}
pub broadcast proof fn node_text_is(t: TOMLValue, v: Value) requires #[trigger] means(t, v) ensures text(v) == node_text(t) { same_text(t, v, choose|v: Value| means(t, v)); }
pub type Ents = Map<Txt, HashValue>;
pub open spec fn values_of(m: Ents, ks: Seq<Txt>, strip: bool) -> Seq<Txt> { Seq::new(ks.len(), |i: int| shown(node_text(m[ks[i]].value->0), strip)) }
pub open spec fn some_keys(csv: Txt) -> bool { fields(csv) matches Some(ks) && ks.len() > 0 }
pub type Res = Result<Str, Str>;
/// what the command prints, or that it cannot be answered
#[verifier::opaque] pub open spec fn value_answer(r: Res, m: Ents, csv: Txt, sep: Txt, strip: bool) -> bool {
  let ks = fields(csv)->0;
  (r is Ok <==> some_keys(csv) && forall|i: int| 0 <= i < ks.len() ==> value_at(m, #[trigger] ks[i])) && (r matches Ok(t) ==> t.b@ == join(values_of(m, ks, strip), sep))
}
//@fn kit::get_value props=C12 errtext
  requires fine(doc.parser.map@)
  ensures value_answer(r, doc.parser.map@, csv.b@, sep.b@, strip_quotes)
//@start
  proof { reveal(value_answer); }
  broadcast use node_text_is;
  let ghost ps = values_of(doc.parser.map@, fields(csv.b@)->0, strip_quotes);
  proof { part_none(ps, sep.b@); }
//@inv 0
  forall|j: int| 0 <= j < __n0 ==> value_at(doc.parser.map@, #[trigger] fields(csv.b@)->0[j]), result.b@ == parts(ps, sep.b@, __n0 as int),
//@end 0
  proof { part_next(ps, sep.b@, i as int); }
//@endfn
/// the word for the i-th key
pub open spec fn enough(v: Seq<Txt>, n: int) -> bool { v.len() == 1 || v.len() >= n }
pub open spec fn word(v: Seq<Txt>, i: int) -> Txt { if v.len() == 1 { v[0] } else { v[i] } }
pub open spec fn words(csv: Txt, n: int) -> bool { fields(csv) matches Some(v) && enough(v, n) }
pub open spec fn answers(yes: Seq<bool>, t: Seq<Txt>, f: Seq<Txt>, from: int) -> Seq<Txt> { Seq::new(yes.len(), |i: int| if yes[i] { word(t, i + from) } else { word(f, i + from) }) }
pub open spec fn have_values(m: Ents, ks: Seq<Txt>) -> Seq<bool> { Seq::new(ks.len(), |i: int| value_at(m, ks[i])) }
#[verifier::opaque] pub open spec fn presence_answer(r: Res, yes: Seq<bool>, csv: Txt, sep: Txt, t: Txt, f: Txt, from: int) -> bool {
  let ks = fields(csv)->0;
  (r is Ok <==> some_keys(csv) && words(t, ks.len() + from) && words(f, ks.len() + from)) && (r matches Ok(s) ==> s.b@ == join(answers(yes, fields(t)->0, fields(f)->0, from), sep))
}
//@fn kit::has_value props=C12 vecget errtext
  requires fine(doc.parser.map@)
  ensures *final(keycount) as int == (if some_keys(csv.b@) { fields(csv.b@)->0.len() as int } else { *old(keycount) as int }), *final(keycount) <= 0x7fff_ffff_ffff_ffff || *final(keycount) == *old(keycount),
    presence_answer(r, have_values(doc.parser.map@, fields(csv.b@)->0), csv.b@, sep.b@, true_vals.b@, false_vals.b@, 0)
//@start
  proof { reveal(presence_answer); }
  let ghost ps = answers(have_values(doc.parser.map@, fields(csv.b@)->0), fields(true_vals.b@)->0, fields(false_vals.b@)->0, 0);
  proof { part_none(ps, sep.b@); }
//@inv 0
  __n0 > 0 ==> fields(true_vals.b@) is Some && fields(false_vals.b@) is Some && enough(fields(true_vals.b@)->0, __n0 as int) && enough(fields(false_vals.b@)->0, __n0 as int), result.b@ == parts(ps, sep.b@, __n0 as int),
//@end 0
  proof { part_next(ps, sep.b@, i as int); }
//@endfn
/// the children of a key; the empty key stands for the root
pub open spec fn full(k: Txt) -> Txt { if k.len() == 0 { root_key() } else { k } }
pub open spec fn there(m: Ents, k: Txt) -> bool { m.dom().contains(full(k)) }
pub open spec fn kids(m: Ents, k: Txt) -> Children { m[full(k)].subkeys }
pub open spec fn none_of(c: Children) -> bool { match c { Children::Count(n) => n == 0, Children::Keys(v) => v@.len() == 0 } }
pub open spec fn have_children(m: Ents, ks: Seq<Txt>) -> Seq<bool> { Seq::new(ks.len(), |i: int| there(m, ks[i]) && !none_of(kids(m, ks[i]))) }
//@fn kit::has_children props=C12 vecget errtext
  requires *keycount <= 0x7fff_ffff_ffff_ffff
  ensures presence_answer(r, have_children(doc.parser.map@, fields(csv.b@)->0), csv.b@, sep.b@, true_vals.b@, false_vals.b@, *keycount as int)
//@start
  proof { reveal(presence_answer); }
  let ghost ps = answers(have_children(doc.parser.map@, fields(csv.b@)->0), fields(true_vals.b@)->0, fields(false_vals.b@)->0, *keycount as int);
  proof { part_none(ps, sep.b@); }
//@inv 0
  __n0 > 0 ==> fields(true_vals.b@) is Some && fields(false_vals.b@) is Some && enough(fields(true_vals.b@)->0, __n0 + *keycount) && enough(fields(false_vals.b@)->0, __n0 + *keycount), result.b@ == parts(ps, sep.b@, __n0 as int),
//@end 0
  proof { part_next(ps, sep.b@, i as int); }
//@endfn
/// how the children of a key are printed
pub open spec fn strs(v: Seq<Str>) -> Seq<Txt> { Seq::new(v.len(), |i: int| v[i].b@) }
pub open spec fn kids_text(c: Children, begin: Txt, end: Txt, sep: Txt, length: bool) -> Txt {
  match c { Children::Count(n) => dec(n as int), Children::Keys(v) => if length { (dec(v@.len() as int) + sep) + join(strs(v@), sep) } else { (begin + join(strs(v@), sep)) + end } }
}
pub open spec fn children_of(m: Ents, ks: Seq<Txt>, begin: Txt, end: Txt, sep: Txt, length: bool) -> Seq<Txt> { Seq::new(ks.len(), |i: int| kids_text(kids(m, ks[i]), begin, end, sep, length)) }
#[verifier::opaque] pub open spec fn children_answer(r: Res, m: Ents, csv: Txt, sep: Txt, begin: Txt, end: Txt, asep: Txt, length: bool) -> bool {
  let ks = fields(csv)->0;
  (r is Ok <==> some_keys(csv) && forall|i: int| 0 <= i < ks.len() ==> there(m, #[trigger] ks[i]) && kids(m, ks[i]) != Children::Count(0)) && (r matches Ok(s) ==> s.b@ == join(children_of(m, ks, begin, end, asep, length), sep))
}
//@fn kit::get_children props=C12 errtext
  ensures children_answer(r, doc.parser.map@, csv.b@, sep.b@, arr_start.b@, arr_end.b@, arr_sep.b@, arr_len)
//@start
  proof { reveal(children_answer); }
  let ghost ps = children_of(doc.parser.map@, fields(csv.b@)->0, arr_start.b@, arr_end.b@, arr_sep.b@, arr_len);
  proof { part_none(ps, sep.b@); assert forall|p: Seq<Txt>| #[trigger] parts(p, arr_sep.b@, 0) == Seq::<u8>::empty() by { part_none(p, arr_sep.b@); }
    assert forall|p: Seq<Txt>, n: int| 0 <= n implies #[trigger] parts(p, arr_sep.b@, n + 1) == parts(p, arr_sep.b@, n) + (p[n] + (if n + 1 < p.len() { arr_sep.b@ } else { seq![] })) by { part_next(p, arr_sep.b@, n); } }
//@inv 0
  forall|j: int| 0 <= j < __n0 ==> there(doc.parser.map@, #[trigger] fields(csv.b@)->0[j]) && kids(doc.parser.map@, fields(csv.b@)->0[j]) != Children::Count(0), result.b@ == parts(ps, sep.b@, __n0 as int),
//@end 0
  proof { part_next(ps, sep.b@, i as int); }
//@before 1
  let ghost val1 = val.b@;
//@inv 1
  val.b@ == val1 + parts(strs(ckeys@), arr_sep.b@, __n1 as int),
//@endfn
// ---------------------------------------------------------------- changes
#[verifier::opaque] pub open spec fn dt_text(d: DateTime) -> Txt { d.render() }
//@extern Value::datetime_parse
  ensures r matches Ok(v) ==> (v matches Value::DateTime(d) && d.ok() && dt_text(d) == dt.b@),
    r is Err ==> forall|d: DateTime| #[trigger] d.ok() ==> dt_text(d) != dt.b@
//@endfn
pub open spec fn t_bs() -> (Txt, Txt) { (seq![98u8, 97, 115, 105, 99, 45, 115, 116, 114, 105, 110, 103], seq![98u8, 115]) }
pub open spec fn t_mbs() -> (Txt, Txt) { (seq![109u8, 108, 45, 98, 97, 115, 105, 99, 45, 115, 116, 114, 105, 110, 103], seq![109u8, 98, 115]) }
pub open spec fn t_ls() -> (Txt, Txt) { (seq![108u8, 105, 116, 101, 114, 97, 108, 45, 115, 116, 114, 105, 110, 103], seq![108u8, 115]) }
pub open spec fn t_mls() -> (Txt, Txt) { (seq![109u8, 108, 45, 108, 105, 116, 101, 114, 97, 108, 45, 115, 116, 114, 105, 110, 103], seq![109u8, 108, 115]) }
pub open spec fn t_int() -> (Txt, Txt) { (seq![105u8, 110, 116, 101, 103, 101, 114], seq![105u8, 110, 116]) }
pub open spec fn t_flt() -> (Txt, Txt) { (seq![102u8, 108, 111, 97, 116], seq![102u8, 108, 116]) }
pub open spec fn t_bool() -> (Txt, Txt) { (seq![98u8, 111, 111, 108, 101, 97, 110], seq![98u8, 111, 111, 108]) }
pub open spec fn t_dt() -> (Txt, Txt) { (seq![100u8, 97, 116, 101, 116, 105, 109, 101], seq![100u8, 116]) }
pub open spec fn either(t: Txt, n: (Txt, Txt)) -> bool { t == n.0 || t == n.1 }
/// the value which the text stands for, as a value of that type
pub open spec fn typed(typ: Txt, val: Txt, v: Value) -> bool {
  if either(typ, t_bs()) { lang(3, val) && v == Value::String(mk(val), StrType::Basic) }
  else if either(typ, t_mbs()) { lang(4, val) && v == Value::String(mk(val), StrType::MLBasic) }
  else if either(typ, t_ls()) { lang(5, val) && v == Value::String(mk(val), StrType::Literal) }
  else if either(typ, t_mls()) { lang(6, val) && v == Value::String(mk(val), StrType::MLLiteral) }
  else if either(typ, t_int()) { lang(1, val) && v == Value::Integer(mk(val)) }
  else if either(typ, t_flt()) { lang(2, val) && v == Value::Float(mk(val)) }
  else if either(typ, t_bool()) { (says(val, bool_text(true)) && v == Value::Boolean(true)) || (says(val, bool_text(false)) && v == Value::Boolean(false)) }
  else { either(typ, t_dt()) && (v matches Value::DateTime(d) && d.ok() && dt_text(d) == val) }
}
/// the first n changes, one after the other, lead from the one map to the other
#[verifier::opaque] pub open spec fn changed(m: Ents, f: Seq<Txt>, n: int, z: Ents) -> bool decreases n {
  if n <= 0 { m == z } else { exists|y: Ents, v: Value| changed(m, f, n - 1, y) && #[trigger] one_change(y, f, n - 1, z, v) }
}
pub open spec fn one_change(y: Ents, f: Seq<Txt>, i: int, z: Ents, v: Value) -> bool { typed(f[3 * i + 2], f[3 * i + 1], v) && can_set(y, f[3 * i], v) && was_set(y, z, f[3 * i], v) }
pub proof fn change_none(m: Ents, f: Seq<Txt>) ensures changed(m, f, 0, m) { reveal_with_fuel(changed, 1); }
pub broadcast proof fn change_next(m: Ents, f: Seq<Txt>, n: int, y: Ents, z: Ents, v: Value, k: Txt) requires 0 <= n, #[trigger] changed(m, f, n, y), #[trigger] was_set(y, z, k, v), typed(f[3 * n + 2], f[3 * n + 1], v), can_set(y, k, v), k == f[3 * n] ensures changed(m, f, n + 1, z) { reveal_with_fuel(changed, 2); assert(one_change(y, f, (n + 1) - 1, z, v)); }
/// the next change cannot be made
pub open spec fn stuck(y: Ents, f: Seq<Txt>, i: int) -> bool { !value_at(y, f[3 * i]) || forall|v: Value| !#[trigger] typed(f[3 * i + 2], f[3 * i + 1], v) }
pub open spec fn triples(kvs: Txt) -> bool { fields(kvs) matches Some(f) && f.len() > 0 && f.len() % 3 == 0 }
pub open spec fn success() -> Txt { seq![83u8, 117, 99, 99, 101, 115, 115] }
pub open spec fn successes(n: int, quiet: bool) -> Seq<Txt> { if quiet { seq![] } else { Seq::new(n as nat, |i: int| success()) } }
#[verifier::opaque] pub open spec fn change_answer(r: Res, m: Ents, z: Ents, kvs: Txt, sep: Txt, quiet: bool) -> bool {
  let f = fields(kvs)->0;
  (r matches Ok(t) ==> triples(kvs) && changed(m, f, f.len() as int / 3, z) && t.b@ == join(successes(f.len() as int / 3, quiet), sep))
    && (r is Err ==> !triples(kvs) || exists|i: int, y: Ents| 0 <= i < f.len() / 3 && changed(m, f, i, y) && #[trigger] stuck(y, f, i))
}
//@fn kit::set_value props=C13 errtext
  requires fine(old(doc).parser.map@)
  ensures fine(final(doc).parser.map@), old(doc).parser.root.wf() ==> final(doc).parser.root.wf(),
    change_answer(r, old(doc).parser.map@, final(doc).parser.map@, kvs.b@, sep.b@, quiet)
//@start
  proof { reveal(change_answer); }
  let ghost f = fields(kvs.b@)->0; let ghost m = doc.parser.map@;
  let ghost ps = successes(f.len() as int / 3, quiet);
  proof { part_none(ps, sep.b@); change_none(m, f); }
//@inv 0
  triples(kvs.b@), fine(doc.parser.map@), old(doc).parser.root.wf() ==> doc.parser.root.wf(), changed(m, f, __n0 as int, doc.parser.map@), quiet ==> result.b@ == Seq::<u8>::empty(), !quiet ==> result.b@ == parts(ps, sep.b@, __n0 as int),
//@body 0
  let ghost y = doc.parser.map@;
  let ghost st = stuck(y, f, i as int);
  broadcast use change_next;
//@end 0
  proof { part_next(ps, sep.b@, i as int); }
//@endfn
// ---------------------------------------------------------------- files and the command line
pub broadcast proof fn insert_twice(m: Map<Txt, Txt>, k: Txt, a: Txt, b: Txt) ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b) { assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b)); }
//@fn kit::write_to_file world props=C13
  requires doc.parser.root.wf()
  ensures final(w).first@ == old(w).first@, final(w).out@ == old(w).out@,
    r is Ok ==> final(w).files@ == old(w).files@.insert(file_path.b@, doc.parser.root.render()) && final(w).failed@ == old(w).failed@,
    r is Err ==> final(w).failed@ || final(w).files@ == old(w).files@
//@start
  broadcast use insert_twice;
//@endfn
//@fn kit::get_file world props=C12,C13
  ensures *final(w) == *old(w), r is Ok ==> old(w).files@.dom().contains(file_path.b@) && final(out_file).b@ == old(out_file).b@ + old(w).files@[file_path.b@]
//@endfn
//@fn kit::print_doc world props=C13
  requires doc.parser.root.wf()
  ensures final(w).same(*old(w)), final(w).out@ == old(w).out@ + (doc.parser.root.render() + seq![10u8])
//@endfn
/// proved in u_ast but for the last part: what a parse leaves in the map is tables and values
//@extern TOMLParser::parse this
  ensures outcome(input, r.0.parser, r.1), fine(r.0.parser.map@)
//@endfn
//@extern TOMLParser::new
//@endfn
/// the commands
pub open spec fn o_get_value() -> Txt { seq![103u8, 101, 116, 45, 118, 97, 108, 117, 101] }
pub open spec fn o_has_value() -> Txt { seq![104u8, 97, 115, 45, 118, 97, 108, 117, 101] }
pub open spec fn o_get_children() -> Txt { seq![103u8, 101, 116, 45, 99, 104, 105, 108, 100, 114, 101, 110] }
pub open spec fn o_has_children() -> Txt { seq![104u8, 97, 115, 45, 99, 104, 105, 108, 100, 114, 101, 110] }
pub open spec fn o_set_value() -> Txt { seq![115u8, 101, 116, 45, 118, 97, 108, 117, 101] }
pub open spec fn o_output_file() -> Txt { seq![111u8, 117, 116, 112, 117, 116, 45, 102, 105, 108, 101] }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
/// a command is carried out when it is given and the one before did not fail
pub open spec fn ran(a: Matches, o: Txt, rs: Seq<Res>, n: int) -> bool { a.given(o) && rs[n - 1] is Ok }
pub open spec fn counted(a: Matches, rs: Seq<Res>, n: int) -> int { if ran(a, o_has_value(), rs, n) && some_keys(a.arg(o_has_value())->0) { fields(a.arg(o_has_value())->0)->0.len() as int } else { 0 } }
/// the places of the results (after an empty first one)
pub open spec fn n2(a: Matches, rs: Seq<Res>) -> int { 1 + one(ran(a, o_get_value(), rs, 1)) }
pub open spec fn n3(a: Matches, rs: Seq<Res>) -> int { n2(a, rs) + one(ran(a, o_has_value(), rs, n2(a, rs))) }
pub open spec fn n4(a: Matches, rs: Seq<Res>) -> int { n3(a, rs) + one(ran(a, o_get_children(), rs, n3(a, rs))) }
pub open spec fn n5(a: Matches, rs: Seq<Res>) -> int { n4(a, rs) + one(ran(a, o_has_children(), rs, n4(a, rs))) }
pub open spec fn n6(a: Matches, rs: Seq<Res>) -> int { n5(a, rs) + one(ran(a, o_set_value(), rs, n5(a, rs))) }
pub open spec fn values_told(o: Options, a: Matches, m: Ents, rs: Seq<Res>) -> bool { ran(a, o_get_value(), rs, 1) ==> a.arg(o_get_value()) is Some && value_answer(rs[1], m, a.arg(o_get_value())->0, o.separator.b@, o.strip_quotes) }
pub open spec fn presence_told(o: Options, a: Matches, m: Ents, rs: Seq<Res>) -> bool { ran(a, o_has_value(), rs, n2(a, rs)) ==> a.arg(o_has_value()) is Some && presence_answer(rs[n2(a, rs)], have_values(m, fields(a.arg(o_has_value())->0)->0), a.arg(o_has_value())->0, o.separator.b@, o.true_vals.b@, o.false_vals.b@, 0) }
pub open spec fn children_told(o: Options, a: Matches, m: Ents, rs: Seq<Res>) -> bool { ran(a, o_get_children(), rs, n3(a, rs)) ==> a.arg(o_get_children()) is Some && children_answer(rs[n3(a, rs)], m, a.arg(o_get_children())->0, o.separator.b@, o.arr_start.b@, o.arr_end.b@, o.arr_sep.b@, o.arr_len) }
pub open spec fn kids_told(o: Options, a: Matches, m: Ents, rs: Seq<Res>) -> bool { ran(a, o_has_children(), rs, n4(a, rs)) ==> a.arg(o_has_children()) is Some && presence_answer(rs[n4(a, rs)], have_children(m, fields(a.arg(o_has_children())->0)->0), a.arg(o_has_children())->0, o.separator.b@, o.true_vals.b@, o.false_vals.b@, counted(a, rs, n2(a, rs))) }
/// the changes, and where they went
pub open spec fn changes_made(o: Options, a: Matches, p: Parser, z: Parser, rs: Seq<Res>, w: World, v: World, path: Txt) -> bool {
  if ran(a, o_set_value(), rs, n5(a, rs)) {
    &&& a.arg(o_set_value()) is Some && change_answer(rs[n5(a, rs)], p.map@, z.map@, a.arg(o_set_value())->0, o.separator.b@, o.quiet)
    &&& v.files@ == (if rs[n5(a, rs)] is Ok { w.files@.insert(if a.given(o_output_file()) { a.arg(o_output_file())->0 } else { path }, z.root.render()) } else { w.files@ })
  } else { p == z && v.files@ == w.files@ }
}
pub open spec fn answered(o: Options, a: Matches, p: Parser, z: Parser, rs: Seq<Res>, w: World, v: World, path: Txt) -> bool {
  &&& rs[0] is Ok && rs.len() == n6(a, rs)
  &&& values_told(o, a, p.map@, rs) && presence_told(o, a, p.map@, rs) && children_told(o, a, p.map@, rs) && kids_told(o, a, p.map@, rs)
  &&& changes_made(o, a, p, z, rs, w, v, path)
}
pub open spec fn o_error() -> Txt { seq![69u8, 114, 114, 111, 114, 32, 34] }
pub open spec fn result_text(path: Txt, r: Res) -> Txt { match r { Ok(t) => t.b@, Err(e) => o_error() + (path + (seq![34u8, 58, 32] + e.b@)) } }
pub open spec fn result_texts(path: Txt, rs: Seq<Res>) -> Seq<Txt> { Seq::new((rs.len() - 1) as nat, |i: int| result_text(path, rs[i + 1])) }
pub open spec fn printed(path: Txt, rs: Seq<Res>, sep: Txt) -> Txt { join(result_texts(path, rs), sep) + seq![10u8] }
pub open spec fn story(p: Parser, z: Parser, rs: Seq<Res>) -> bool { true }
//@fn kit::process_document world errtext isolate props=C12,C13
  requires old(w).files@ == old(w).first@, !old(w).failed@
  ensures final(w).first@ == old(w).first@,
    exists|p: Parser, z: Parser, rs: Seq<Res>| #[trigger] story(p, z, rs) && old(w).files@.dom().contains(file_path.b@) && outcome(mk(old(w).files@[file_path.b@]), p, ParseResult::Full) && rs.len() > 1
      && answered(*opts, *matches, p, z, rs, *old(w), *final(w), file_path.b@)
      && final(w).out@ == old(w).out@ + (printed(file_path.b@, rs, opts.separator.b@) + (if opts.print_doc { z.root.render() + seq![10u8] } else { seq![] }))
//@bind result
  let ghost p = parser.parser;
//@before 0
  let ghost w1 = *w; let ghost z = parser.parser; let ghost rs = seq![Ok::<Str, Str>(mk(seq![]))] + result@; let ghost ps = result_texts(file_path.b@, rs);
  proof { assert(story(p, z, rs)); part_none(ps, opts.separator.b@); }
//@inv 0
  w.same(w1), rs == seq![Ok::<Str, Str>(mk(seq![]))] + result@, ps == result_texts(file_path.b@, rs), __a0 == 0, __e0 == result@.len(), w.out@ == old(w).out@ + parts(ps, opts.separator.b@, __n0 as int) + (if __n0 == rs.len() - 1 { seq![10u8] } else { seq![] }),
//@end 0
  proof { part_next(ps, opts.separator.b@, i as int); }
//@after 0
  assert(w.out@ == old(w).out@ + printed(file_path.b@, rs, opts.separator.b@));
//@endfn
