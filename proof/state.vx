
//@props C17,C14,C10
impl Eqx for ArrayType { #[verifier::external_body] fn eqx(&self, o: &ArrayType) -> (r: bool) { unimplemented!() } }
// ---------------------------------------------------------------- what the parser remembers while it reads
pub open spec fn keyed(c: Seq<Key>) -> bool { forall|i: int| 0 <= i < c.len() ==> ((#[trigger] c[i]) matches Key::Str(s) ==> s.b@.len() > 0 && s.b@[0] != 36) }
/// no array is reported twice
pub open spec fn once(es: Seq<ParseError>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() && (#[trigger] es[i]) is MixedArray && (#[trigger] es[j]) is MixedArray ==> es[i]->MixedArray_0.b@ != es[j]->MixedArray_0.b@ }
/// the headers the parser is in: arrays of tables, and a table at the end or none
#[verifier::opaque] pub open spec fn arrays(ts: Seq<TableType>) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]) is Array && tab(ts[i]).keys@.len() > 0 }
pub open spec fn topped(ts: Seq<TableType>) -> bool { ts.len() == 0 || (arrays(ts.drop_last()) && tab(ts.last()).keys@.len() > 0) }
pub broadcast proof fn arrays_last(ts: Seq<TableType>) requires #[trigger] arrays(ts), ts.len() > 0 ensures ts.last() is Array && tab(ts.last()).keys@.len() > 0 && arrays(ts.drop_last()) { reveal(arrays); assert(ts[ts.len() - 1] == ts.last()); assert forall|i: int| 0 <= i < ts.len() - 1 implies (#[trigger] ts.drop_last()[i]) is Array && tab(ts.drop_last()[i]).keys@.len() > 0 by { assert(ts[i] == ts.drop_last()[i]); } }
pub broadcast proof fn arrays_push(ts: Seq<TableType>, t: TableType) requires #[trigger] arrays(ts), tab(t).keys@.len() > 0 ensures #[trigger] topped(ts.push(t)), t is Array ==> arrays(ts.push(t)) { reveal(arrays); assert(ts.push(t).drop_last() =~= ts); }
pub broadcast proof fn arrays_joined(ts: Seq<TableType>) requires #[trigger] topped(ts) ensures ts.len() == 0 || ts.last() is Array ==> arrays(ts) { reveal(arrays); if ts.len() > 0 && ts.last() is Array { assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] ts[i]) is Array && tab(ts[i]).keys@.len() > 0 by { if i < ts.len() - 1 { assert(ts.drop_last()[i] == ts[i]); } else { assert(ts[i] == ts.last()); } } } }
pub broadcast proof fn arrays_popped(ts: Seq<TableType>, t: TableType) ensures (#[trigger] ts.push(t)).drop_last() == ts { assert(ts.push(t).drop_last() =~= ts); }
/// an invalid table was reported
pub open spec fn refused(es: Seq<ParseError>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is InvalidTable }
pub broadcast proof fn refused_push(es: Seq<ParseError>, e: ParseError) ensures refused(es) || e is InvalidTable ==> #[trigger] refused(es.push(e)) {
  let fs = es.push(e);
  if e is InvalidTable { assert(fs[es.len() as int] == e); } else if refused(es) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is InvalidTable; assert(fs[i] == es[i]); }
}
#[verifier::opaque] pub open spec fn safe(p: Parser) -> bool {
  &&& p.last_array_tables@.len() == p.last_array_tables_index@.len()
  &&& topped(p.last_array_tables@)
  &&& (p.array_error ==> refused(p.errors@))
  &&& keyed(p.keychain@) && fine(p.map@) && sane(p.map@) && once(p.errors@)
}
/// the same error; an invalid table may have got more contents
pub open spec fn like(a: ParseError, b: ParseError) -> bool { a == b || (a is InvalidTable && b is InvalidTable && a->InvalidTable_0 == b->InvalidTable_0 && a->InvalidTable_1 == b->InvalidTable_1 && a->InvalidTable_2 == b->InvalidTable_2) }
pub open spec fn later(a: Seq<ParseError>, b: Seq<ParseError>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> like(#[trigger] a[i], b[i]) }
/// a value that was given stays
pub open spec fn firm(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>) -> bool { forall|k: Txt| #[trigger] m.dom().contains(k) ==> n.dom().contains(k) && (m[k].value is Some ==> n[k].value == m[k].value) }
/// reading values changes the map, the errors, the lines and where in a value the parser is, and nothing else
#[verifier::opaque] pub open spec fn grew(p: Parser, q: Parser) -> bool {
  &&& q.root == p.root && q.leftover == p.leftover && q.last_array_tables@ == p.last_array_tables@ && q.last_array_tables_index@ == p.last_array_tables_index@
  &&& q.last_table == p.last_table && q.array_error == p.array_error && q.mixed_array == p.mixed_array && q.failure == p.failure
  &&& q.keychain@.len() >= p.keychain@.len() && q.last_array_type@.len() >= p.last_array_type@.len()
  &&& later(p.errors@, q.errors@) && firm(p.map@, q.map@)
  // the values of a refused table don't become part of the document
  &&& (p.array_error ==> q.map@ == p.map@)
}
pub broadcast proof fn grew_more(p: Parser, q: Parser, r: Parser) requires #[trigger] grew(p, q), #[trigger] grew(q, r) ensures grew(p, r) { reveal(grew); }
pub proof fn grew_self(p: Parser) ensures grew(p, p) { reveal(grew); }
pub open spec fn but_lines(p: Parser, q: Parser) -> bool { q == (Parser { line_count: q.line_count, ..p }) }
pub broadcast proof fn safe_lines(p: Parser, q: Parser) requires #[trigger] but_lines(p, q) ensures safe(q) == safe(p), grew(p, q) { reveal(safe); reveal(grew); }
/// the parser is in the same place of a value
pub open spec fn here(p: Parser, q: Parser) -> bool { q.keychain@ =~= p.keychain@ && q.last_array_type@ =~= p.last_array_type@ }
// ---------------------------------------------------------------- texts
pub open spec fn heads(t: Txt) -> bool { t.len() > 0 && t[0] == 91 }
pub open spec fn braced(t: Txt) -> bool { t.len() > 0 && t[0] == 123 }
pub open spec fn opens2(t: Txt) -> bool { t.len() > 1 && t[0] == 91 && t[1] == 91 }
pub open spec fn keyish(t: Txt) -> bool { t.len() > 0 && (keybyte(t[0]) || t[0] == 34) }
/// neither white space, line end nor comment
pub open spec fn plain(t: Txt) -> bool { t.len() > 0 && t[0] != 32 && t[0] != 9 && t[0] != 10 && t[0] != 13 && t[0] != 35 }
pub proof fn blanks_in(t: Txt) ensures 0 <= blanks(t) <= t.len() decreases t.len() { if t.len() > 0 && (t[0] == 32 || t[0] == 9) { blanks_in(t.skip(1)); } }
pub open spec fn trimmed(t: Txt) -> Txt { t.skip(blanks(t)) }
pub broadcast proof fn trimmed_plain(t: Txt) requires t.len() > 0 && t[0] != 32 && t[0] != 9 ensures #[trigger] trimmed(t) == t { assert(t.skip(0) =~= t); }
pub open spec fn value_first(i: Str, d: bool) -> bool { d ==> i.b@.len() > 0 && !opening(i.b@) }
pub open spec fn no_value<T>(r: IResult<T>) -> bool { !(r is Done) && !(r is Incomplete) }
pub broadcast proof fn first_of(a: Txt, b: Txt) requires a.len() > 0 ensures (#[trigger] (a + b))[0] == a[0] { }
pub broadcast proof fn first_in(a: Txt, n: int) requires 0 < n <= a.len() ensures (#[trigger] a.take(n))[0] == a[0] { }
pub broadcast proof fn skip_none(a: Txt) ensures #[trigger] a.skip(0) == a { assert(a.skip(0) =~= a); }
/// how many line ends are in the text
pub open spec fn nl(t: Txt) -> int decreases t.len() { if t.len() == 0 { 0 } else { nl(t.drop_last()) + if t.last() == 10 { 1int } else { 0 } } }
// ---------------------------------------------------------------- arrays of a single kind
pub open spec fn kind(v: TOMLValue) -> ArrayType {
  match v { TOMLValue::Integer(_) => ArrayType::Integer, TOMLValue::Float(_) => ArrayType::Float, TOMLValue::Boolean(_) => ArrayType::Boolean, TOMLValue::DateTime(_) => ArrayType::DateTime,
    TOMLValue::Array(_) => ArrayType::Array, TOMLValue::String(_, _) => ArrayType::String, TOMLValue::InlineTable(_) => ArrayType::InlineTable, TOMLValue::Table => ArrayType::None }
}
/// the errors about mixed arrays
pub open spec fn mixes(es: Seq<ParseError>) -> Seq<ParseError> decreases es.len() { if es.len() == 0 { seq![] } else { let m = mixes(es.drop_last()); if es.last() is MixedArray { m.push(es.last()) } else { m } } }
pub broadcast proof fn mixes_push(es: Seq<ParseError>, e: ParseError) ensures #[trigger] mixes(es.push(e)) == (if e is MixedArray { mixes(es).push(e) } else { mixes(es) }) { assert(es.push(e).drop_last() =~= es); }
/// no array inside of it has elements of different kinds
pub open spec fn pure_value(v: TOMLValue) -> bool decreases v {
  match v {
    TOMLValue::Array(a) => forall|i: int| 0 <= i < a.values@.len() ==> pure_value((#[trigger] a.values@[i]).val) && kind(a.values@[i].val) == kind(a.values@[0].val),
    TOMLValue::InlineTable(a) => forall|i: int| 0 <= i < a.keyvals@.len() ==> pure_value((#[trigger] a.keyvals@[i]).keyval.val),
    _ => true,
  }
}
/// mixed arrays are reported, and only they
pub open spec fn told(p: Parser, q: Parser, pure: bool) -> bool { if pure { mixes(q.errors@) == mixes(p.errors@) } else { mixes(q.errors@).len() > 0 && mixes(q.errors@).len() >= mixes(p.errors@).len() } }
pub broadcast proof fn told_more(p: Parser, q: Parser, r: Parser, a: bool, b: bool) requires #[trigger] told(p, q, a), #[trigger] told(q, r, b) ensures told(p, r, a && b) { }
/// inserting a value keeps the parser sane
pub broadcast proof fn put_in(p: Parser, q: Parser, v: TOMLValue)
  requires kept(p, q), #[trigger] inserted(p, q, v), safe(p), way(p), writable(v), !p.array_error,
  ensures safe(q), grew(p, q), mixes(q.errors@) == mixes(p.errors@)
{
  reveal(safe); reveal(grew); places_differ(p); reveal_with_fuel(writable, 2);
  if !inside(p) && again(p.map@, place(p).0, v) { let x = choose|x: Value| means(v, x) && q.errors@ == #[trigger] p.errors@.push(ParseError::DuplicateKey(mk(place(p).0), p.line_count, 0, x)); mixes_push(p.errors@, ParseError::DuplicateKey(mk(place(p).0), p.line_count, 0, x)); }
}
pub proof fn places_differ(p: Parser) requires keyed(p.keychain@), p.keychain@.len() > 0 ensures place(p).0 != place(p).1, chain_ok(p.keychain@) {
  let c = p.keychain@; let n = c.len() as int; chain_next(c, n - 1); if n > 1 { chain_some(c, n - 1); } chain_some(c, n);
  assert(n == 1 ==> chain(c, n - 1).len() == 0) by { reveal_with_fuel(chain, 1); }
  assert(chain(c, n).len() > chain(c, n - 1).len());
  match p.last_table {
    None => { if n == 1 { assert(c[0] matches Key::Str(s) ==> s.b@[0] != 36); assert(chain(c, 1)[0] != 36); assert(rootk()[0] == 36); } }
    Some(t) => { let h = head(p.map@, if t is Standard { p.last_array_tables@.push(t) } else { p.last_array_tables@ }, p.last_array_tables_index@); assert(full(h.1, c).len() > parent(h.1, c).len()); }
  }
}
/// a date-time that does not exist is reported once, under its key, on its line, with its text
pub open spec fn dated(p: Parser, q: Parser, o: DateTime, t: Txt) -> bool {
  q == (Parser { errors: q.errors, ..p }) && q.errors@ == (if o.ok() { p.errors@ } else { p.errors@.push(ParseError::InvalidDateTime(mk(full(head(p.map@, p.last_array_tables@, p.last_array_tables_index@).1, p.keychain@)), p.line_count, 0, mk(t))) })
}
//@fn map_val_to_array_type 
  requires !(*val is Table)
  ensures r == kind(*val)
//@endfn
//@fn Key::inc sums
  ensures *final(self) == (match *old(self) { Key::Index(i) => Key::Index((i + 1) as usize), k => k })
//@endfn
//@extern count_lines
//@endfn
//@fn not_eol 
  ensures true
//@endfn
//@fn is_keychar 
  ensures r == ((chr as u32) < 128 && keybyte((chr as u32) as u8))
//@endfn
//@fn Parser::newline sums
  ensures !(r.1 is Incomplete), !(r.1 is Done) ==> r.0 == self, r.1 is Done ==> but_lines(self, r.0) && i.b@.len() > 0 && (i.b@[0] == 10 || i.b@[0] == 13), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() < i.b@.len()
//@endfn
//@fn Parser::comment sums
  ensures r.0 == self, r.1 is Done ==> i.b@.len() > 0 && i.b@[0] == 35, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::ws sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) && rest.b@ == trimmed(i.b@) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::ws_newline sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) && (plain(i.b@) || (i.b@.len() > 0 && i.b@[0] == 35) ==> rest.b@ == i.b@) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::comment_nl sums
  ensures r.0 == self, plain(i.b@) ==> !(r.1 is Done), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::comment_or_nl sums
  ensures but_lines(self, r.0), r.1 matches IResult::Done(rest, _) && (plain(i.b@) ==> rest.b@ == i.b@) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::comment_or_nls sums
  ensures but_lines(self, r.0), r.1 matches IResult::Done(rest, _) && (plain(i.b@) ==> rest.b@ == i.b@) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@inv 0
  but_lines(self, this), plain(i.b@) ==> input.b@ == i.b@, input.b@.len() <= i.b@.len(), incomplete is None,
//@endfn
//@fn Parser::array_sep sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::keyval_sep sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::integer sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::float sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::raw_basic_string sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> o.b@.len() >= 2
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::raw_literal_string sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> o.b@.len() >= 2
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::boolean sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::date sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::date_time_internal sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::raw_ml_basic_string sums
  ensures !(r.1 is Done) ==> r.0 == self, but_lines(self, r.0), r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> o.b@.len() >= 6
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::raw_ml_literal_string sums
  ensures !(r.1 is Done) ==> r.0 == self, but_lines(self, r.0), r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> o.b@.len() >= 6
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::basic_string sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(input, true) && rest.b@.len() <= input.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::literal_string sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(input, true) && rest.b@.len() <= input.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::ml_basic_string sums
  ensures !(r.1 is Done) ==> r.0 == self, but_lines(self, r.0), r.1 matches IResult::Done(rest, _) ==>  value_first(input, true) && rest.b@.len() <= input.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::ml_literal_string sums
  ensures !(r.1 is Done) ==> r.0 == self, but_lines(self, r.0), r.1 matches IResult::Done(rest, _) ==>  value_first(input, true) && rest.b@.len() <= input.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::string sums
  ensures !(r.1 is Done) ==> r.0 == self, but_lines(self, r.0), r.1 matches IResult::Done(rest, _) ==>  value_first(i, true) && rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> o is String
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::fractional sums
  ensures r.0 == self, r.1 matches IResult::Done(_, o) ==> o@.len() == 2, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::time sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::time_offset sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::time_offset_amount sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::date_time sums
  requires safe(self)
  ensures !(r.1 is Done) ==> r.0 == self, r.1 matches IResult::Done(rest, _) ==>  value_first(input, true) && rest.b@.len() <= input.b@.len(), r.1 matches IResult::Done(rest, o) ==> dated(self, r.0, o, input.b@.take(input.b@.len() - rest.b@.len())), safe(r.0), grew(self, r.0), here(self, r.0), mixes(r.0.errors@) == mixes(self.errors@)
//@start
  broadcast use {mixes_push, refused_push};
  proof { reveal(safe); reveal(grew); }
//@endfn
//@fn Parser::unquoted_key sums
  ensures r.0 == self, !(r.1 is Incomplete) || true, r.1 matches IResult::Done(rest, o) ==> keyish(i.b@) && o.b@.len() > 0 && o.b@[0] == i.b@[0] && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@inv 0
  invariant_except_break forall|k: int| 0 <= k < (if __n0 == 0 { 0 } else { char_end(i.b@, __it0@, __n0 - 1) }) ==> keybyte(#[trigger] i.b@[k]), offset == i.b@.len(), __e0 == __it0@.len(), __e0 == 0 <==> i.b@.len() == 0, __e0 > 0 ==> __it0@[0].0 == 0,
  forall|k: int| 0 <= k < __it0@.len() ==> __it0@[k].0 < #[trigger] char_end(i.b@, __it0@, k) <= i.b@.len() && char_bytes(__it0@[k].1) == i.b@.subrange(__it0@[k].0 as int, char_end(i.b@, __it0@, k)),
  ensures forall|k: int| 0 <= k < offset ==> keybyte(#[trigger] i.b@[k]), offset <= i.b@.len(), offset < i.b@.len() ==> !keybyte(i.b@[offset as int]),
//@body 0
  proof { let e = char_end(i.b@, __it0@, __n0 - 1); let p = __it0@[__n0 - 1]; char_is_keybyte(p.1); assert(char_bytes(p.1)[0] == i.b@[p.0 as int]);
    if __n0 > 1 { assert(char_end(i.b@, __it0@, __n0 - 2) == p.0); }
    if keybyte(i.b@[p.0 as int]) { assert(i.b@.subrange(p.0 as int, e).len() == 1); } }
//@endfn
//@fn Parser::quoted_key sums
  ensures r.0 == self, !(r.1 is Incomplete) || true, r.1 matches IResult::Done(rest, o) ==> keyish(i.b@) && o.b@.len() > 0 && o.b@[0] == i.b@[0] && rest.b@.len() <= i.b@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::key sums
  ensures !(r.1 is Done) ==> r.0 == self, r.1 matches IResult::Done(rest, o) ==> keyish(i.b@) && o.b@.len() > 0 && o.b@[0] == i.b@[0] && rest.b@.len() <= i.b@.len() && r.0 == (Parser { keychain: r.0.keychain, ..self }) && r.0.keychain@ == self.keychain@.push(Key::Str(mk(o.b@)))
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
/// the names of a header are read
pub open spec fn chained(p: Parser, q: Parser) -> bool { q == (Parser { keychain: q.keychain, ..p }) && q.keychain@.len() >= p.keychain@.len() && (keyed(p.keychain@) ==> keyed(q.keychain@)) }
pub broadcast proof fn safe_chained(p: Parser, q: Parser) requires #[trigger] chained(p, q) ensures safe(p) ==> safe(q), grew(p, q) { reveal(safe); reveal(grew); }
//@fn Parser::table_subkey sums
  ensures !(r.1 is Done) ==> r.0 == self, chained(self, r.0), r.1 matches IResult::Done(rest, o) ==> rest.b@.len() <= i.b@.len() && r.0.keychain@ == self.keychain@.push(Key::Str(mk(o.key.b@)))
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
//@fn Parser::table_subkeys sums
  requires self.keychain@.len() > 0
  ensures chained(self, r.0), r.1 matches IResult::Done(rest, o) ==> rest.b@.len() <= i.b@.len() && r.0.keychain@ =~= self.keychain@ + o@.map_values(|k: WSKeySep| Key::Str(mk(k.key.b@))) && o@.len() + self.keychain@.len() <= usize::MAX
//@inv 0
  chained(self, this), input.b@.len() <= i.b@.len(), this.keychain@ =~= self.keychain@ + res@.map_values(|k: WSKeySep| Key::Str(mk(k.key.b@))),
//@after 0
  proof { assert(this.keychain.len() <= usize::MAX); }
//@endfn
/// only the stack of tables differs, and it holds arrays of tables
pub open spec fn stacked(p: Parser, q: Parser) -> bool {
  &&& q == (Parser { last_array_tables: q.last_array_tables, last_array_tables_index: q.last_array_tables_index, keychain: q.keychain, ..p }) && q.keychain@ =~= p.keychain@
  &&& q.last_array_tables@.len() == q.last_array_tables_index@.len() && arrays(q.last_array_tables@)
}
/// no array of tables
pub open spec fn not_counted(m: Map<Txt, HashValue>, k: Txt) -> bool { k == rootk() || (k.len() > 0 && k.skip(k.len() - 1) == seq![93u8]) || !(m.dom().contains(k) && m[k].subkeys is Count && m[k].subkeys->Count_0 > 0) }
pub proof fn latest_not_counted(m: Map<Txt, HashValue>, k: Txt) requires sane(m), !has_value(m, k) ensures not_counted(m, latest(m, k)) {
  match tlen(m, k) { Some(c) => { let t = k + brack(c - 1); assert(t.skip(t.len() - 1) =~= seq![93u8]); } None => { } }
}
pub proof fn dot_off(k: Txt) ensures dot(k).drop_last() == k { assert(dot(k).drop_last() =~= k); }
/// the table can be opened: its key holds neither a value nor an array of tables, and its parent is no array of tables
pub proof fn opened_parent(m: Map<Txt, HashValue>, t: TableType, s: (bool, Txt, Txt, int), i: usize)
  requires sane(m), t is Standard, tab(t).keys@.len() > 0, opened(m, t, s, i, true).0, s.1.len() > 0 ==> not_counted(m, s.1.drop_last()), s.1.len() == 0 ==> not_counted(m, s.2)
  ensures not_counted(m, opened(m, t, s, i, true).2)
{
  let ns = names(tab(t)); let n = ns.len() - 2; mids_next(m, ns, s.3, n, (s.0, s.1));
  if s.3 <= n && ns[n].b@ != rootk() { let b = mids(m, ns, s.3, n, (s.0, s.1)); let key = b.1 + ns[n].b@; latest_not_counted(m, key); dot_off(latest(m, key)); }
}
pub open spec fn free(m: Map<Txt, HashValue>, k: Txt) -> bool { !has_value(m, k) && tlen(m, k) is None }
pub proof fn head_parent(m: Map<Txt, HashValue>, ts: Seq<TableType>, ix: Seq<usize>)
  requires sane(m), ts.len() == ix.len(), ts.len() > 0, ts.last() is Standard, topped(ts), head(m, ts, ix).0
  ensures not_counted(m, head(m, ts, ix).2), free(m, head(m, ts, ix).1)
{
  reveal(arrays);
  let n = ts.len() as int; headed_next(m, ts, ix, n - 1); let s = headed(m, ts, ix, n - 1);
  if n == 1 { headed_next(m, ts, ix, 0); }
  else { headed_next(m, ts, ix, n - 2); assert(ts.drop_last()[n - 2] == ts[n - 2]); assert(ts[n - 2] is Array); let a = headed(m, ts, ix, n - 2); let o = opened(m, ts[n - 2], a, ix[n - 2], false); assert(s == o); assert(s.1.len() > 0);
    let e = s.1.drop_last(); assert(e.skip(e.len() - 1) =~= seq![93u8]); }
  opened_parent(m, ts[n - 1], s, ix[n - 1]);
}
//@fn Parser::std_table#act panics sums
  requires safe(self), self.keychain@.len() > subkeys@.len(), subkeys@.len() < usize::MAX
  ensures safe(r.0), r.0.keychain@ =~= cut(self, subkeys@), r.0.last_array_type@ == self.last_array_type@, mixes(r.0.errors@) == mixes(self.errors@), r.0.errors@.len() >= self.errors@.len()
//@closure fn std_table_act(mut self: Parser, ws1: &str, key: &str, subkeys: Vec<WSKeySep>, ws2: &str) -> (Parser, Rc<TableType>)
//@start
  broadcast use {mixes_push, refused_push, arrays_last, arrays_push, arrays_joined, arrays_popped};
  proof { reveal(safe); }
//@bind tuple
  proof { if tuple.0 { head_parent(this.map@, this.last_array_tables@, this.last_array_tables_index@); } }
//@inv 0
  len > 0, len == this.last_array_tables@.len(), stacked(Parser { keychain: this.keychain, ..self }, this), this.keychain@ =~= cut(self, subkeys@),
//@endfn
//@fn Parser::array_table#act sums
  requires safe(self), self.keychain@.len() > subkeys@.len(), subkeys@.len() < usize::MAX
  ensures safe(r.0), r.0.keychain@ =~= cut(self, subkeys@), r.0.last_array_type@ == self.last_array_type@, mixes(r.0.errors@) == mixes(self.errors@), r.0.errors@.len() >= self.errors@.len()
//@closure fn array_table_act(mut self: Parser, ws1: &str, key: &str, subkeys: Vec<WSKeySep>, ws2: &str) -> (Parser, Rc<TableType>)
//@start
  broadcast use {mixes_push, refused_push, arrays_last, arrays_push, arrays_joined, arrays_popped};
  proof { reveal(safe); }
//@inv 0
  this.keychain@ =~= cut(self, subkeys@), stacked(Parser { array_error: false, keychain: this.keychain, ..self }, this),
//@endfn
/// the key chain without the names of the header
pub open spec fn cut(p: Parser, ks: Seq<WSKeySep>) -> Seq<Key> { p.keychain@.take(p.keychain@.len() - (ks.len() + 1)) }
//@fn Parser::std_table sums
  requires safe(self)
  ensures safe(r.0), !(r.1 is Done) ==> r.0 == self || (i.b@.len() > 0 && i.b@[0] == 91), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len() && i.b@.len() > 0 && i.b@[0] == 91, opens2(i.b@) ==> r.0 == self && !(r.1 is Done), r.0.keychain@.len() >= self.keychain@.len(), r.1 is Done ==> r.0.keychain@ =~= self.keychain@ && r.0.last_array_type@ == self.last_array_type@ && mixes(r.0.errors@) == mixes(self.errors@) && r.0.errors@.len() >= self.errors@.len()
//@start
  broadcast use {trimmed_plain, safe_chained};
  proof { reveal(safe); }
//@endfn
//@fn Parser::array_table sums
  requires safe(self)
  ensures safe(r.0), !(r.1 is Done) ==> r.0 == self || opens2(i.b@), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len() && i.b@.len() > 0 && i.b@[0] == 91, r.0.keychain@.len() >= self.keychain@.len(), r.1 is Done ==> r.0.keychain@ =~= self.keychain@ && r.0.last_array_type@ == self.last_array_type@ && mixes(r.0.errors@) == mixes(self.errors@) && r.0.errors@.len() >= self.errors@.len()
//@start
  broadcast use {trimmed_plain, safe_chained};
  proof { reveal(safe); }
//@endfn
//@fn Parser::table sums
  requires safe(self)
  ensures safe(r.0), !(r.1 is Done) ==> r.0 == self || (i.b@.len() > 0 && i.b@[0] == 91), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len() && i.b@.len() > 0 && i.b@[0] == 91, r.0.keychain@.len() >= self.keychain@.len(), r.1 is Done ==> r.0.keychain@ =~= self.keychain@ && r.0.last_array_type@ == self.last_array_type@ && mixes(r.0.errors@) == mixes(self.errors@) && r.0.errors@.len() >= self.errors@.len()
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines};
//@endfn
/// the parser is as it was
pub open spec fn back(p: Parser, q: Parser) -> bool { q == (Parser { keychain: q.keychain, last_array_type: q.last_array_type, ..p }) && here(p, q) }
pub broadcast proof fn back_grew(p: Parser, q: Parser) requires #[trigger] back(p, q) ensures grew(p, q), safe(p) ==> safe(q) { reveal(grew); reveal(safe); }
/// how the parser stands after a value
pub open spec fn valued(p: Parser, q: Parser, v: TOMLValue) -> bool { here(p, q) && writable(v) && told(p, q, pure_value(v)) }
//@fn Parser::val sums
  requires safe(self)
  ensures safe(r.0), grew(self, r.0), !(r.1 is Done) ==> back(self, r.0) || opening(i.b@), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> valued(self, r.0, o)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, back_grew, safe_lines};
  proof { reveal_with_fuel(writable, 2); reveal_with_fuel(pure_value, 2); }
//@endfn

/// the elements are of one kind each, and so inside of them
pub open spec fn same(a: Seq<ArrayValue>) -> bool { forall|i: int| 0 <= i < a.len() ==> pure_value((#[trigger] a[i]).val) && kind(a[i].val) == kind(a[0].val) }
pub open spec fn level(p: Parser, q: Parser) -> bool { q.keychain@.len() == p.keychain@.len() && q.keychain@.len() > 0 && q.keychain@.drop_last() =~= p.keychain@.drop_last() && q.last_array_type@.len() == p.last_array_type@.len() && q.last_array_type@.len() > 0 && q.last_array_type@.drop_last() =~= p.last_array_type@.drop_last() }
pub open spec fn elem(p: Parser, q: Parser, v: TOMLValue) -> bool { level(p, q) && writable(v) && q.last_array_type@.last() == kind(v) && told(p, q, pure_value(v) && (p.last_array_type@.last() is None || p.last_array_type@.last() == kind(v))) }
pub open spec fn elems(p: Parser, q: Parser, a: Seq<ArrayValue>) -> bool { level(p, q) && (forall|i: int| 0 <= i < a.len() ==> writable((#[trigger] a[i]).val)) && q.last_array_type@.last() == (if a.len() == 0 { p.last_array_type@.last() } else { kind(a.last().val) }) && told(p, q, same(a)) }
pub broadcast proof fn elems_next(p: Parser, q: Parser, r: Parser, a: Seq<ArrayValue>, x: ArrayValue) requires #[trigger] elems(p, q, a), #[trigger] elem(q, r, x.val), p.last_array_type@.last() is None ensures elems(p, r, a.push(x)) {
  assert(same(a.push(x)) ==> same(a)) by { if same(a.push(x)) { assert forall|i: int| 0 <= i < a.len() implies pure_value((#[trigger] a[i]).val) && kind(a[i].val) == kind(a[0].val) by { assert(a.push(x)[i] == a[i]); assert(a.push(x)[0] == a[0]); } } }
  if a.len() > 0 { assert(a.push(x)[a.len() as int] == x); assert(a.push(x)[0] == a[0]); assert(a.push(x)[a.len() - 1] == a.last()); assert(same(a) ==> kind(a[a.len() - 1].val) == kind(a[0].val)); } else { assert(a.push(x)[0] == x); reveal_with_fuel(writable, 2); }
  if same(a) && pure_value(x.val) && (a.len() == 0 || kind(a.last().val) == kind(x.val)) { assert(same(a.push(x))); }
  if same(a.push(x)) { assert(a.push(x)[a.len() as int] == x); }
  reveal_with_fuel(writable, 2);
}
pub open spec fn pures(a: Seq<TableKeyVal>) -> bool { forall|i: int| 0 <= i < a.len() ==> pure_value((#[trigger] a[i]).keyval.val) }
pub open spec fn pairs(p: Parser, q: Parser, a: Seq<TableKeyVal>) -> bool { here(p, q) && (forall|i: int| 0 <= i < a.len() ==> writable((#[trigger] a[i]).keyval.val)) && told(p, q, pures(a)) }
pub broadcast proof fn pairs_next(p: Parser, q: Parser, r: Parser, a: Seq<TableKeyVal>, x: TableKeyVal) requires #[trigger] pairs(p, q, a), #[trigger] valued(q, r, x.keyval.val) ensures pairs(p, r, a.push(x)) {
  if pures(a.push(x)) { assert(a.push(x)[a.len() as int] == x); assert forall|i: int| 0 <= i < a.len() implies pure_value((#[trigger] a[i]).keyval.val) by { assert(a.push(x)[i] == a[i]); } }
}

/// the array is reported
pub open spec fn reported(es: Seq<ParseError>, k: Txt) -> bool { exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]) is MixedArray && es[j]->MixedArray_0.b@ == k }
pub proof fn reported_next(es: Seq<ParseError>, n: int, k: Txt) requires 0 <= n < es.len() ensures reported(es.take(n + 1), k) == (reported(es.take(n), k) || (es[n] is MixedArray && es[n]->MixedArray_0.b@ == k)) {
  let (a, b) = (es.take(n), es.take(n + 1));
  assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] == b[j] by { }
  if reported(a, k) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]) is MixedArray && a[j]->MixedArray_0.b@ == k; assert(b[j] == a[j]); }
  if reported(b, k) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]) is MixedArray && b[j]->MixedArray_0.b@ == k; if j < n { assert(a[j] == b[j]); } }
  assert(b[n] == es[n]);
}
pub proof fn mixes_some(es: Seq<ParseError>, k: Txt) ensures reported(es, k) ==> mixes(es).len() > 0 decreases es.len() {
  if reported(es, k) { let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]) is MixedArray && es[j]->MixedArray_0.b@ == k; if j < es.len() - 1 { let a = es.drop_last(); assert(a[j] == es[j]); mixes_some(a, k); } }
}
/// an array that isn't reported yet can be
pub proof fn report(p: Parser, e: ParseError) requires safe(p), e is MixedArray
  ensures forall|q: Parser| q == (Parser { errors: q.errors, last_array_type: q.last_array_type, ..p }) && q.last_array_type@.len() >= p.last_array_type@.len() && q.errors@ == p.errors@.push(e) && !reported(p.errors@, e->MixedArray_0.b@) ==> #[trigger] safe(q) && grew(p, q) && mixes(q.errors@).len() > mixes(p.errors@).len()
{ reveal(safe); reveal(grew); mixes_push(p.errors@, e); refused_push(p.errors@, e);
  assert forall|q: Parser| q == (Parser { errors: q.errors, last_array_type: q.last_array_type, ..p }) && q.last_array_type@.len() >= p.last_array_type@.len() && q.errors@ == p.errors@.push(e) && !reported(p.errors@, e->MixedArray_0.b@) implies #[trigger] safe(q) && grew(p, q) && mixes(q.errors@).len() > mixes(p.errors@).len() by {
    let a = p.errors@; let b = q.errors@;
    assert forall|i: int, j: int| 0 <= i < j < b.len() && (#[trigger] b[i]) is MixedArray && (#[trigger] b[j]) is MixedArray implies b[i]->MixedArray_0.b@ != b[j]->MixedArray_0.b@ by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } }
  }
}
pub proof fn lens(p: Parser) ensures forall|q: Parser| #[trigger] grew(p, q) ==> q.keychain@.len() >= p.keychain@.len() && q.last_array_type@.len() >= p.last_array_type@.len(), safe(p) ==> true { reveal(grew); }
pub broadcast proof fn safe_way(p: Parser) requires #[trigger] safe(p) ensures p.last_array_tables@.len() == p.last_array_tables_index@.len(), keyed(p.keychain@), p.keychain@.len() > 0 ==> way(p) { reveal(safe); if p.keychain@.len() > 0 { places_differ(p); } }
/// the parser goes to the next element
pub broadcast proof fn stepped_on(p: Parser, q: Parser) requires q == (Parser { keychain: q.keychain, last_array_type: q.last_array_type, ..p }), q.keychain@.len() >= p.keychain@.len(), q.last_array_type@.len() >= p.last_array_type@.len(), #[trigger] safe(p), keyed(p.keychain@) ==> keyed(q.keychain@) ensures #[trigger] safe(q), grew(p, q) { reveal(safe); reveal(grew); }

pub open spec fn contents(e: ParseError) -> Map<Txt, Value> { e->InvalidTable_3@ }
/// the last invalid table has this among its contents
pub open spec fn holds(es: Seq<ParseError>, k: Txt, v: TOMLValue) -> bool { exists|i: int| #[trigger] held(es, i, k, v) }
pub open spec fn held(es: Seq<ParseError>, i: int, k: Txt, v: TOMLValue) -> bool { 0 <= i < es.len() && es[i] is InvalidTable && (forall|j: int| i < j < es.len() ==> !((#[trigger] es[j]) is InvalidTable)) && contents(es[i]).dom().contains(k) && means(v, contents(es[i])[k]) }
/// an invalid table got another key
pub open spec fn noted(es: Seq<ParseError>, fs: Seq<ParseError>, i: int, k: Txt, v: TOMLValue) -> bool {
  0 <= i < es.len() && fs.len() == es.len() && (forall|j: int| 0 <= j < es.len() && j != i ==> #[trigger] fs[j] == es[j]) && es[i] is InvalidTable && fs[i] is InvalidTable && like(es[i], fs[i])
  && means(v, contents(fs[i])[k]) && contents(fs[i]) == contents(es[i]).insert(k, contents(fs[i])[k])
}
pub proof fn mixes_same(es: Seq<ParseError>, fs: Seq<ParseError>, i: int) requires fs.len() == es.len(), forall|j: int| 0 <= j < es.len() && j != i ==> #[trigger] fs[j] == es[j], 0 <= i < es.len() ==> !(es[i] is MixedArray) && !(fs[i] is MixedArray) ensures mixes(es) == mixes(fs) decreases es.len() {
  if es.len() > 0 { let n = es.len() - 1; assert(es.last() == es[n] && fs.last() == fs[n]); assert forall|j: int| 0 <= j < n && j != i implies #[trigger] fs.drop_last()[j] == es.drop_last()[j] by { assert(fs[j] == es[j]); } mixes_same(es.drop_last(), fs.drop_last(), i); }
}
pub proof fn note(es: Seq<ParseError>, fs: Seq<ParseError>, i: int, k: Txt, v: TOMLValue) requires noted(es, fs, i, k, v), forall|j: int| i < j < es.len() ==> !((#[trigger] es[j]) is InvalidTable)
  ensures holds(fs, k, v), later(es, fs), mixes(fs) == mixes(es), once(es) ==> once(fs), refused(fs)
{
  assert forall|j: int| i < j < fs.len() implies !((#[trigger] fs[j]) is InvalidTable) by { assert(fs[j] == es[j]); }
  assert(held(fs, i, k, v)); mixes_same(es, fs, i);
  assert forall|j: int| 0 <= j < es.len() implies like(#[trigger] es[j], fs[j]) by { if j != i { assert(fs[j] == es[j]); } }
  if once(es) { assert forall|a: int, b: int| 0 <= a < b < fs.len() && (#[trigger] fs[a]) is MixedArray && (#[trigger] fs[b]) is MixedArray implies fs[a]->MixedArray_0.b@ != fs[b]->MixedArray_0.b@ by { assert(fs[a] == es[a] && fs[b] == es[b]); } }
}
//@fn Parser::array_value sums
  requires safe(self), self.keychain@.len() > 0, self.last_array_type@.len() > 0
  ensures safe(r.0), grew(self, r.0), !(r.1 is Done) ==> back(self, r.0) || opening(i.b@), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> elem(self, r.0, o.val)
//@start
  broadcast use {grew_more, safe_lines, back_grew, told_more, put_in, stepped_on, safe_way};
  proof { lens(self); grew_self(self); }
//@inv 0
  __r0 == reported(this.errors@.take(__n0 as int), tuple.2.b@),
//@body 0
  proof { reported_next(this.errors@, __n0 as int, tuple.2.b@); }
//@after 0
  proof { assert(this.errors@.take(this.errors@.len() as int) =~= this.errors@); mixes_some(this.errors@, tuple.2.b@); report(this, ParseError::MixedArray(tuple.2, this.line_count, 0)); }
//@call insert_keyval_into_map
  proof { assert(safe(this)); assert(grew(self, this)); }
//@call inc
  proof { assert(safe(this)); assert(grew(self, this)); }
//@bind keychain_len
  proof { assert(safe(this)); assert(grew(self, this)); assert(told(self, this, pure_value(val) && (self.last_array_type@.last() is None || self.last_array_type@.last() == kind(val)))); }
//@endfn
//@fn Parser::array_values sums
  requires safe(self), self.keychain@.len() > 0, self.last_array_type@.len() > 0, self.last_array_type@.last() is None
  ensures safe(r.0), grew(self, r.0), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(rest, o) ==> opening(rest.b@) || elems(self, r.0, o@)
//@start
  broadcast use {grew_more, back_grew, elems_next};
  proof { grew_self(self); }
//@inv 0
  safe(this), grew(self, this), elems(self, this, res@), input.b@.len() <= i.b@.len(),
//@endfn
//@fn Parser::array sums
  requires safe(self)
  ensures safe(r.0), grew(self, r.0), !(r.1 is Done) ==> back(self, r.0) || heads(input.b@), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= input.b@.len() && heads(input.b@), r.1 matches IResult::Done(_, o) ==> valued(self, r.0, TOMLValue::Array(o))
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines, back_grew, told_more, put_in, mixes_push};
  proof { reveal(safe); reveal(grew); grew_self(self); reveal_with_fuel(writable, 2); reveal_with_fuel(pure_value, 2); }
//@endfn
//@fn Parser::array_internal sums
  requires safe(self), self.keychain@.len() > 0, self.last_array_type@.len() > 0, self.last_array_type@.last() is None
  ensures safe(r.0), grew(self, r.0), !(r.1 is Done) ==> r.0 == self || heads(i.b@), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 is Done ==> heads(i.b@), r.1 matches IResult::Done(_, o) ==> elems(self, r.0, o.values@)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines, back_grew, told_more, put_in, mixes_push};
  proof { grew_self(self); reveal_with_fuel(writable, 2); reveal_with_fuel(pure_value, 2); }
//@endfn
//@fn Parser::table_keyval sums
  requires safe(self)
  ensures safe(r.0), grew(self, r.0), !(r.1 is Done) ==> r.0 == self || keyish(i.b@), r.1 is Done ==> keyish(i.b@), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> valued(self, r.0, o.keyval.val)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines, back_grew, told_more, put_in, mixes_push};
  proof { grew_self(self); reveal_with_fuel(writable, 2); reveal_with_fuel(pure_value, 2); }
//@endfn
//@fn Parser::inline_table_keyvals_non_empty sums
  requires safe(self)
  ensures safe(r.0), grew(self, r.0), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(rest, o) ==> keyish(rest.b@) || pairs(self, r.0, o@), !(r.1 is Done) ==> r.0 == self || keyish(i.b@)
//@start
  broadcast use {grew_more, pairs_next};
  proof { grew_self(self); }
//@inv 0
  safe(this), grew(self, this), pairs(self, this, res@), keyish(i.b@) || (this == self && input.b@ == i.b@), input.b@.len() <= i.b@.len(),
//@endfn
//@fn Parser::inline_table sums
  requires safe(self)
  ensures safe(r.0), grew(self, r.0), !(r.1 is Done) ==> r.0 == self || braced(i.b@), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 is Done ==> braced(i.b@), r.1 matches IResult::Done(_, o) ==> valued(self, r.0, TOMLValue::InlineTable(o))
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines, back_grew, told_more, put_in, mixes_push};
  proof { grew_self(self); reveal_with_fuel(writable, 2); reveal_with_fuel(pure_value, 2); }
//@endfn
//@fn Parser::keyval sums
  requires safe(self)
  ensures safe(r.0), grew(self, r.0), !(r.1 is Done) ==> r.0 == self || keyish(i.b@), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 is Done ==> keyish(i.b@), r.1 matches IResult::Done(_, o) ==> valued(self, r.0, o.val), r.1 matches IResult::Done(_, o) ==> self.array_error && self.keychain@.len() == 0 ==> holds(r.0.errors@, o.key.b@, o.val)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, grew_more, safe_lines, back_grew, told_more, put_in, mixes_push};
  proof { reveal(safe); reveal(grew); grew_self(self); reveal_with_fuel(writable, 2); reveal_with_fuel(pure_value, 2); }
//@before 0
  let ghost was = this;
//@inv 0
  this == (Parser { errors: this.errors, ..was }), this.errors@ =~= was.errors@, __a0 == was.errors@.len(), forall|j: int| __n0 <= j < was.errors@.len() ==> !((#[trigger] was.errors@[j]) is InvalidTable),
//@call insert
  proof { let (a, b, n) = (was.errors@[__n0 as int], this.errors@[__n0 as int], __n0 as int); assert(a is InvalidTable && b is InvalidTable && like(a, b)); assert(this.errors@.len() == was.errors@.len()); reveal_with_fuel(means, 2); let x = contents(b)[res.key.b@]; assert(contents(b) == contents(a).insert(res.key.b@, x)); assert(means(res.val, x)); assert(noted(was.errors@, this.errors@, __n0 as int, res.key.b@, res.val)); note(was.errors@, this.errors@, __n0 as int, res.key.b@, res.val); }
//@endfn

// ---------------------------------------------------------------- the document
/// something that is no line end follows: reading ends here
pub open spec fn stop(t: Txt) -> bool { t.len() > 0 && t[0] != 10 && t[0] != 13 }
pub open spec fn pure_expr(e: Expression) -> bool { e.keyval matches Some(kv) ==> pure_value(kv.val) }
pub open spec fn pure_lines(a: Seq<NLExpression>) -> bool { forall|i: int| 0 <= i < a.len() ==> pure_expr((#[trigger] a[i]).expr) }
pub open spec fn read_line(p: Parser, q: Parser, e: Expression) -> bool { here(p, q) && told(p, q, pure_expr(e)) }
pub open spec fn read_lines(p: Parser, q: Parser, a: Seq<NLExpression>) -> bool { here(p, q) && told(p, q, pure_lines(a)) }
pub broadcast proof fn lines_first(p: Parser, q: Parser, r: Parser, x: NLExpression, a: Seq<NLExpression>) requires #[trigger] read_line(p, q, x.expr), #[trigger] read_lines(q, r, a) ensures read_lines(p, r, seq![x] + a) {
  let s = seq![x] + a; assert(s[0] == x);
  if pure_lines(s) { assert forall|i: int| 0 <= i < a.len() implies pure_expr((#[trigger] a[i]).expr) by { assert(s[i + 1] == a[i]); } }
  if pure_lines(a) && pure_expr(x.expr) { assert forall|i: int| 0 <= i < s.len() implies pure_expr((#[trigger] s[i]).expr) by { if i > 0 { assert(s[i] == a[i - 1]); } } }
}
pub broadcast proof fn lines_next(p: Parser, q: Parser, r: Parser, a: Seq<NLExpression>, x: NLExpression) requires #[trigger] read_lines(p, q, a), #[trigger] read_line(q, r, x.expr) ensures read_lines(p, r, a.push(x)) {
  if pure_lines(a.push(x)) { assert(a.push(x)[a.len() as int] == x); assert forall|i: int| 0 <= i < a.len() implies pure_expr((#[trigger] a[i]).expr) by { assert(a.push(x)[i] == a[i]); } }
}
//@fn Parser::table_comment sums
  requires safe(self)
  ensures safe(r.0), !(r.1 is Done) ==> r.0 == self || heads(trimmed(i.b@)), r.1 is Done ==> heads(trimmed(i.b@)), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> read_line(self, r.0, o)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, safe_lines};
//@endfn
//@fn Parser::keyval_comment sums
  requires safe(self)
  ensures safe(r.0), !(r.1 is Done) ==> r.0 == self || keyish(trimmed(i.b@)), r.1 is Done ==> keyish(trimmed(i.b@)), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> read_line(self, r.0, o)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, safe_lines};
//@endfn
//@fn Parser::ws_comment sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(_, o) ==> o.keyval is None, r.1 is Done ==> trimmed(i.b@).len() > 0 && trimmed(i.b@)[0] == 35
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, safe_lines};
//@endfn
//@fn Parser::ws_expr sums
  ensures r.0 == self, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(rest, o) && o.keyval is None && rest.b@ == trimmed(i.b@)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, safe_lines};
//@endfn
//@fn Parser::expression sums
  requires safe(self)
  ensures safe(r.0), r.1 is Done, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(rest, o) ==> stop(rest.b@) || read_line(self, r.0, o)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, safe_lines};
//@endfn
//@fn Parser::nl_expression sums
  requires safe(self)
  ensures safe(r.0), r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() < i.b@.len(), !(r.1 is Done) ==> r.0 == self, stop(i.b@) ==> !(r.1 is Done), !(r.1 is Incomplete), r.1 matches IResult::Done(rest, o) ==> stop(rest.b@) || read_line(self, r.0, o.expr)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, safe_lines};
//@endfn
//@fn Parser::nl_expressions sums
  requires safe(self)
  ensures safe(r.0), r.1 is Done, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(rest, o) ==> (stop(rest.b@) || read_lines(self, r.0, o@)) && (stop(i.b@) ==> rest.b@ == i.b@)
//@start
  broadcast use lines_next;
//@inv 0
  safe(this), stop(i.b@) ==> input.b@ == i.b@, stop(input.b@) || read_lines(self, this, res@), input.b@.len() <= i.b@.len(),
//@endfn
//@fn Parser::toml sums
  requires safe(self)
  ensures safe(r.0), r.1 is Done, r.1 matches IResult::Done(rest, _) ==>  rest.b@.len() <= i.b@.len(), r.1 matches IResult::Done(rest, o) ==> stop(rest.b@) || read_lines(self, r.0, o.exprs@)
//@start
  broadcast use {first_of, first_in, skip_none, trimmed_plain, safe_lines, lines_first};
//@endfn

/// a whole document is read: mixed arrays are reported, and only they
pub open spec fn judged(p: Parser, r: ParseResult) -> bool { safe(p) && ((r is Full || r is FullError) ==> (pure_lines(p.root.exprs@) <==> mixes(p.errors@).len() == 0)) }
//@fn Parser::parse sums
  requires safe(self), mixes(self.errors@).len() == 0
  ensures judged(r.0, r.1)
//@start
  proof { reveal(safe); }
//@endfn
//@types TOMLParser
//@fn TOMLParser::parse this sums
  requires safe(self.parser), mixes(self.parser.errors@).len() == 0
  ensures judged(r.0.parser, r.1)
//@endfn
//@fn TOMLParser::new 
  ensures safe(r.parser), mixes(r.parser.errors@).len() == 0
//@start
  proof { reveal(safe); }
//@endfn
