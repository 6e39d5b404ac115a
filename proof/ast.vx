//@types Toml NLExpression Expression TOMLValue TableType Comment WSSep KeyVal WSKeySep Table CommentNewLines CommentOrNewLines ArrayValue Array TableKeyVal InlineTable HashValue ArrayType Key ParseError ParseResult Parser
//@props C01
// ---------------------------------------------------------------- the text of every node
impl Disp for Comment {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { ch('#') + self.text.b@ }
//@fn <Comment as Display>::fmt
//@endfn
}
impl Disp for CommentNewLines {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { self.pre_ws_nl.b@ + (self.comment.render() + self.newlines.b@) }
//@fn <CommentNewLines as Display>::fmt
//@endfn
}
impl Disp for CommentOrNewLines {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { match self { CommentOrNewLines::Comment(c) => c.render(), CommentOrNewLines::NewLines(n) => n.b@ } }
//@fn <CommentOrNewLines as Display>::fmt
//@endfn
}
impl Disp for WSKeySep {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { self.ws.ws1.b@ + (ch('.') + (self.ws.ws2.b@ + self.key.b@)) }
//@fn <WSKeySep as Display>::fmt
//@endfn
}
impl Disp for Table {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { if self.keys@.len() == 0 { seq![] } else { self.keys@[0].ws.ws1.b@ + (self.keys@[0].key.b@ + (all(self.keys@.skip(1)) + self.keys@[0].ws.ws2.b@)) } }
//@fn <Table as Display>::fmt
//@start
  proof { cat_none(self.keys@.skip(1)); }
//@inv 0
  f.o@ == old(f).o@ + (self.keys@[0].ws.ws1.b@ + (self.keys@[0].key.b@ + cat(self.keys@.skip(1), __n0 - 1))),
//@end 0
  proof { cat_next(self.keys@.skip(1), i - 1); }
//@endfn
}
impl Disp for TableType {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { match self { TableType::Standard(t) => ch('[') + (t.render() + ch(']')), TableType::Array(t) => seq![91u8, 91] + (t.render() + seq![93u8, 93]) } }
//@fn <TableType as Display>::fmt
//@endfn
}
pub open spec fn sep(s: Option<WSSep>) -> Txt { match s { Some(w) => w.ws1.b@ + (ch(',') + w.ws2.b@), None => seq![] } }
pub open spec fn ar(a: Array) -> Txt decreases a { ch('[') + (all(a.comment_nls1@) + (each_av(a.values@, a.values@.len() as int) + (all(a.comment_nls2@) + ch(']')))) }
pub open spec fn itab(t: InlineTable) -> Txt decreases t { ch('{') + (t.ws.ws1.b@ + (each_tkv(t.keyvals@, t.keyvals@.len() as int) + (t.ws.ws2.b@ + ch('}')))) }
#[verifier::opaque] pub open spec fn tv(v: TOMLValue) -> Txt decreases v {
  match v {
    TOMLValue::Integer(s) => s.b@, TOMLValue::Float(s) => s.b@, TOMLValue::Boolean(b) => bool_text(b), TOMLValue::DateTime(d) => d.render(),
    TOMLValue::String(s, t) => quote_of(t) + (s.b@ + quote_of(t)),
    TOMLValue::Array(a) => ar(a), TOMLValue::InlineTable(t) => itab(t),
    TOMLValue::Table => seq![36u8, 84, 97, 98, 108, 101],
  }
}
pub open spec fn kv(k: KeyVal) -> Txt decreases k { k.key.b@ + (k.keyval_sep.ws1.b@ + (ch('=') + (k.keyval_sep.ws2.b@ + tv(k.val)))) }
pub open spec fn av(v: ArrayValue) -> Txt decreases v { tv(v.val) + (sep(v.array_sep) + all(v.comment_nls@)) }
pub open spec fn tkv(v: TableKeyVal) -> Txt decreases v { kv(v.keyval) + (sep(v.kv_sep) + all(v.comment_nls@)) }
#[verifier::opaque] pub open spec fn each_av(v: Seq<ArrayValue>, n: int) -> Txt decreases v, n { if n <= 0 || n > v.len() { seq![] } else { each_av(v, n - 1) + av(v[n - 1]) } }
#[verifier::opaque] pub open spec fn each_tkv(v: Seq<TableKeyVal>, n: int) -> Txt decreases v, n { if n <= 0 || n > v.len() { seq![] } else { each_tkv(v, n - 1) + tkv(v[n - 1]) } }
pub proof fn each_av_next(v: Seq<ArrayValue>, n: int) requires 0 <= n < v.len() ensures each_av(v, n + 1) == each_av(v, n) + av(v[n]) { reveal_with_fuel(each_av, 2); }
pub proof fn each_tkv_next(v: Seq<TableKeyVal>, n: int) requires 0 <= n < v.len() ensures each_tkv(v, n + 1) == each_tkv(v, n) + tkv(v[n]) { reveal_with_fuel(each_tkv, 2); }
proof fn each_av_same(a: Seq<ArrayValue>, b: Seq<ArrayValue>, n: int) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures each_av(a, n) == each_av(b, n) decreases n { reveal_with_fuel(each_av, 2); if n > 0 { each_av_same(a, b, n - 1); } }
proof fn each_tkv_same(a: Seq<TableKeyVal>, b: Seq<TableKeyVal>, n: int) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures each_tkv(a, n) == each_tkv(b, n) decreases n { reveal_with_fuel(each_tkv, 2); if n > 0 { each_tkv_same(a, b, n - 1); } }
pub proof fn each_av_push(s: Seq<ArrayValue>, x: ArrayValue) ensures each_av(s.push(x), (s.len() + 1) as int) == each_av(s, s.len() as int) + av(x) { each_av_same(s, s.push(x), s.len() as int); each_av_next(s.push(x), s.len() as int); }
pub proof fn each_tkv_push(s: Seq<TableKeyVal>, x: TableKeyVal) ensures each_tkv(s.push(x), (s.len() + 1) as int) == each_tkv(s, s.len() as int) + tkv(x) { each_tkv_same(s, s.push(x), s.len() as int); each_tkv_next(s.push(x), s.len() as int); }
pub proof fn each_none2(v: Seq<ArrayValue>, w: Seq<TableKeyVal>) ensures each_av(v, 0) == Seq::<u8>::empty(), each_tkv(w, 0) == Seq::<u8>::empty() { reveal(each_av); reveal(each_tkv); }
// the definitions, one step each
pub broadcast proof fn tv_int(s: Str) ensures #[trigger] tv(TOMLValue::Integer(s)) == s.b@ { reveal_with_fuel(tv, 2); }
pub broadcast proof fn tv_float(s: Str) ensures #[trigger] tv(TOMLValue::Float(s)) == s.b@ { reveal_with_fuel(tv, 2); }
pub broadcast proof fn tv_bool(b: bool) ensures #[trigger] tv(TOMLValue::Boolean(b)) == bool_text(b) { reveal_with_fuel(tv, 2); }
pub broadcast proof fn tv_date(d: DateTime) ensures #[trigger] tv(TOMLValue::DateTime(d)) == d.render() { reveal_with_fuel(tv, 2); }
pub broadcast proof fn tv_str(s: Str, t: StrType) ensures #[trigger] tv(TOMLValue::String(s, t)) == quote_of(t) + (s.b@ + quote_of(t)) { reveal_with_fuel(tv, 2); }
pub broadcast proof fn tv_array(a: Array) ensures #[trigger] tv(TOMLValue::Array(a)) == ar(a) { reveal_with_fuel(tv, 2); }
pub broadcast proof fn tv_inline(a: InlineTable) ensures #[trigger] tv(TOMLValue::InlineTable(a)) == itab(a) { reveal_with_fuel(tv, 2); }
pub broadcast proof fn kv_is(k: KeyVal) ensures #[trigger] kv(k) == k.key.b@ + (k.keyval_sep.ws1.b@ + (ch('=') + (k.keyval_sep.ws2.b@ + tv(k.val)))) { reveal_with_fuel(kv, 2); reveal_with_fuel(tv, 1); }
pub broadcast proof fn av_is(v: ArrayValue) ensures #[trigger] av(v) == tv(v.val) + (sep(v.array_sep) + all(v.comment_nls@)) { reveal_with_fuel(av, 2); reveal_with_fuel(tv, 1); }
pub broadcast proof fn tkv_is(v: TableKeyVal) ensures #[trigger] tkv(v) == kv(v.keyval) + (sep(v.kv_sep) + all(v.comment_nls@)) { reveal_with_fuel(tkv, 2); reveal_with_fuel(kv, 1); }
pub broadcast proof fn ar_is(a: Array) ensures #[trigger] ar(a) == ch('[') + (all(a.comment_nls1@) + (each_av(a.values@, a.values@.len() as int) + (all(a.comment_nls2@) + ch(']')))) { reveal_with_fuel(ar, 2); reveal_with_fuel(each_av, 1); }
pub broadcast proof fn itab_is(t: InlineTable) ensures #[trigger] itab(t) == ch('{') + (t.ws.ws1.b@ + (each_tkv(t.keyvals@, t.keyvals@.len() as int) + (t.ws.ws2.b@ + ch('}')))) { reveal_with_fuel(itab, 2); reveal_with_fuel(each_tkv, 1); }
impl Disp for TOMLValue {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { tv(*self) }
//@fn <TOMLValue as Display>::fmt
//@start
  proof { reveal_with_fuel(tv, 2); }
//@endfn
}
impl Disp for KeyVal {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { kv(*self) }
//@fn <KeyVal as Display>::fmt
//@start
  proof { kv_is(*self); }
//@endfn
}
impl Disp for ArrayValue {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { av(*self) }
//@fn <ArrayValue as Display>::fmt
//@start
  proof { av_is(*self); cat_none(self.comment_nls@); }
//@inv 0
  f.o@ == old(f).o@ + (tv(self.val) + (sep(self.array_sep) + cat(self.comment_nls@, __n0 as int))),
//@end 0
  proof { cat_next(self.comment_nls@, i as int); }
//@after 0
  proof { cat_next(self.comment_nls@, self.comment_nls@.len() - 1); }
//@endfn
}
impl Disp for Array {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { ar(*self) }
//@fn <Array as Display>::fmt
//@attr #[verifier::rlimit(80)]
//@start
  proof { ar_is(*self); cat_none(self.comment_nls1@); cat_none(self.comment_nls2@); each_none2(self.values@, seq![]); }
//@inv 0
  f.o@ == old(f).o@ + (ch('[') + cat(self.comment_nls1@, __n0 as int)),
//@end 0
  proof { cat_next(self.comment_nls1@, __n0 - 1); }
//@inv 1
  f.o@ == old(f).o@ + (ch('[') + (all(self.comment_nls1@) + each_av(self.values@, __n1 as int))),
//@end 1
  proof { each_av_next(self.values@, __n1 - 1); }
//@inv 2
  f.o@ == old(f).o@ + (ch('[') + (all(self.comment_nls1@) + (each_av(self.values@, self.values@.len() as int) + cat(self.comment_nls2@, __n2 as int)))),
//@end 2
  proof { cat_next(self.comment_nls2@, __n2 - 1); }
//@endfn
}
impl Disp for TableKeyVal {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { tkv(*self) }
//@fn <TableKeyVal as Display>::fmt
//@start
  proof { tkv_is(*self); cat_none(self.comment_nls@); }
//@inv 0
  f.o@ == old(f).o@ + (kv(self.keyval) + (sep(self.kv_sep) + cat(self.comment_nls@, __n0 as int))),
//@end 0
  proof { cat_next(self.comment_nls@, i as int); }
//@after 0
  proof { cat_next(self.comment_nls@, self.comment_nls@.len() - 1); }
//@endfn
}
impl Disp for InlineTable {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { itab(*self) }
//@fn <InlineTable as Display>::fmt
//@start
  proof { itab_is(*self); each_none2(seq![], self.keyvals@); }
//@inv 0
  f.o@ == old(f).o@ + (ch('{') + (self.ws.ws1.b@ + each_tkv(self.keyvals@, __n0 as int))),
//@end 0
  proof { each_tkv_next(self.keyvals@, i as int); }
//@after 0
  proof { each_tkv_next(self.keyvals@, self.keyvals@.len() - 1); }
//@endfn
}
pub open spec fn opt_text<T: Disp>(o: Option<T>) -> Txt { match o { Some(x) => x.render(), None => seq![] } }
impl Disp for Expression {
  open spec fn wf(&self) -> bool { self.keyval is None || self.table is None }
  open spec fn render(&self) -> Txt {
    if self.keyval is None && self.table is None { self.ws.ws1.b@ + opt_text(self.comment) }
    else { self.ws.ws1.b@ + (opt_text(self.keyval) + (opt_text(self.table) + (self.ws.ws2.b@ + opt_text(self.comment)))) }
  }
//@fn <Expression as Display>::fmt
//@endfn
}
impl Disp for NLExpression {
  open spec fn wf(&self) -> bool { self.expr.wf() }
  open spec fn render(&self) -> Txt { self.nl.b@ + self.expr.render() }
//@fn <NLExpression as Display>::fmt
//@endfn
}
impl Disp for Toml {
  open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.exprs@.len() ==> (#[trigger] self.exprs@[i]).wf() }
  open spec fn render(&self) -> Txt { all(self.exprs@) }
//@fn <Toml as Display>::fmt
//@start
  proof { cat_none(self.exprs@); }
//@inv 0
  f.o@ == old(f).o@ + cat(self.exprs@, __n0 as int),
//@end 0
  proof { cat_next(self.exprs@, i as int); }
//@after 0
  proof { cat_next(self.exprs@, self.exprs@.len() - 1); }
//@endfn
}
impl Disp for Parser {
  open spec fn wf(&self) -> bool { self.root.wf() }
  open spec fn render(&self) -> Txt { self.root.render() }
//@fn <Parser as Display>::fmt
//@endfn
}

// ---------------------------------------------------------------- constructors of nodes
//@fn WSSep::new_str 
  ensures r.ws1 == ws1, r.ws2 == ws2
//@endfn
//@fn Comment::new_str 
  ensures r.text == text
//@endfn
//@fn NLExpression::new_str 
  ensures r.nl == nl, r.expr == expr
//@endfn
//@fn KeyVal::new_str 
  ensures r.key == key, r.keyval_sep == keyval_sep, r.val == val
//@endfn
//@fn WSKeySep::new_str 
  ensures r.ws == ws, r.key == key
//@endfn
//@fn CommentNewLines::new_str 
  ensures r.pre_ws_nl == pre_ws_nl, r.comment == comment, r.newlines == newlines
//@endfn
//@fn Table::new_str 
  ensures r.keys@.len() == subkeys@.len() + 1, r.keys@[0].ws == ws, r.keys@[0].key == key, r.keys@.skip(1) == subkeys@, r.render() == ws.ws1.b@ + (key.b@ + (all(subkeys@) + ws.ws2.b@))
//@start
  proof { assert forall|x: WSKeySep| (#[trigger] subkeys@.insert(0, x)).skip(1) == subkeys@ by { assert(subkeys@.insert(0, x).skip(1) =~= subkeys@); } }
//@endfn
//@fn WSSep::new_string 
  ensures r.ws1 == ws1, r.ws2 == ws2
//@endfn
//@fn Comment::new_string 
  ensures r.text == text
//@endfn
//@fn NLExpression::new_string 
  ensures r.nl == nl, r.expr == expr
//@endfn
//@fn KeyVal::new_string 
  ensures r.key == key, r.keyval_sep == keyval_sep, r.val == val
//@endfn
//@fn WSKeySep::new_string 
  ensures r.ws == ws, r.key == key
//@endfn
//@fn CommentNewLines::new_string 
  ensures r.pre_ws_nl == pre_ws_nl, r.comment == comment, r.newlines == newlines
//@endfn
//@fn Table::new_string 
  ensures r.keys@.len() == subkeys@.len() + 1, r.keys@[0].ws == ws, r.keys@[0].key == key, r.keys@.skip(1) == subkeys@, r.render() == ws.ws1.b@ + (key.b@ + (all(subkeys@) + ws.ws2.b@))
//@start
  proof { assert forall|x: WSKeySep| (#[trigger] subkeys@.insert(0, x)).skip(1) == subkeys@ by { assert(subkeys@.insert(0, x).skip(1) =~= subkeys@); } }
//@endfn
//@fn Toml::new 
  ensures r.exprs == exprs
//@endfn
//@fn Expression::new 
  ensures r.ws == ws, r.keyval == keyval, r.table == table, r.comment == comment
//@endfn
//@fn ArrayValue::new 
  ensures r.val == val, r.array_sep == array_sep, r.comment_nls == comment_nls
//@endfn
//@fn Array::new 
  ensures r.values == values, r.comment_nls1 == comment_nls1, r.comment_nls2 == comment_nls2
//@endfn
//@fn TableKeyVal::new 
  ensures r.keyval == keyval, r.kv_sep == kv_sep, r.comment_nls == comment_nls
//@endfn
//@fn InlineTable::new 
  ensures r.keyvals == keyvals, r.ws == ws
//@endfn
//@fn Date::new_str props=C01,C07
  ensures r.year == year, r.month == month, r.day == day
//@endfn
//@fn Time::new_str props=C01,C07
  ensures r.hour == hour, r.minute == minute, r.second == second, r.fraction == fraction, r.offset == offset
//@endfn
//@fn TimeOffsetAmount::new_str props=C01,C07
  ensures r.hour == hour, r.minute == minute, pos_neg.b@ == ch('+') ==> r.pos_neg == PosNeg::Pos, pos_neg.b@ == ch('-') ==> r.pos_neg == PosNeg::Neg
//@start
  proof { assert(ch('+')[0] != ch('-')[0]); }
//@endfn
