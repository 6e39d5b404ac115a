//@props C06
// ---------------------------------------------------------------- which values exist
/// no key occurs twice among the first n, and every key is one bare or quoted key
pub open spec fn keys_ok(t: Seq<(Str, Value)>) -> bool {
  &&& forall|i: int| 0 <= i < t.len() ==> one_key((#[trigger] t[i]).0.b@)
  &&& forall|i: int, j: int| 0 <= j < i < t.len() ==> (#[trigger] t[j]).0 != (#[trigger] t[i]).0
}
/// the value is one that TOML can write
pub open spec fn valid(v: Value) -> bool decreases v {
  match v {
    Value::Integer(s) => lang(1, s.b@),
    Value::Float(s) => lang(2, s.b@),
    Value::Boolean(_) => true,
    Value::DateTime(d) => d.ok(),
    Value::String(s, t) => lang(str_lang(t), s.b@),
    Value::Array(a) => forall|i: int| 0 <= i < a@.len() ==> valid(#[trigger] a@[i]),
    Value::InlineTable(t) => keys_ok(t@) && forall|i: int| 0 <= i < t@.len() ==> valid((#[trigger] t@[i]).1),
  }
}
/// the language axioms, decided on the reference expressions in proof/relang.py
pub axiom fn lang_plain(s: Txt) ensures s.len() > 0 && digits(s) && (s.len() == 1 || s[0] != 48) ==> lang(1, s) && lang(1, seq![45u8] + s);
pub proof fn dec_plain(n: int) requires n >= 0 ensures digits(dec(n)), dec(n).len() >= 1, dec(n).len() == 1 || dec(n)[0] != 48 decreases n {
  dec_num(n); if n >= 10 { dec_plain(n / 10); assert(dec(n)[0] == dec(n / 10)[0]); if dec(n / 10).len() == 1 && dec(n / 10)[0] == 48 { dec_num(n / 10); reveal_with_fuel(num, 2); assert(dec(n / 10).drop_last() =~= Seq::<u8>::empty()); } }
}
//@fn HashValue::none_keys
  ensures r.value is None, r.subkeys == Children::Keys(r.subkeys->Keys_0), r.subkeys->Keys_0@.len() == 0
//@endfn
//@fn HashValue::new_keys props=C04,C10
  ensures r.value == Some(value), r.subkeys matches Children::Keys(v) && v@.len() == 0
//@endfn
//@fn HashValue::new_count props=C04,C10
  ensures r.value == Some(value), r.subkeys == Children::Count(0)
//@endfn
//@fn HashValue::one_keys props=C10
  ensures r.value is None, r.subkeys matches Children::Keys(v) && v@ == seq![key]
//@endfn
//@fn HashValue::one_count props=C10
  ensures r.value is None, r.subkeys == Children::Count(1)
//@endfn
//@fn HashValue::table_keys props=C10
  ensures r.value == Some(TOMLValue::Table), r.subkeys matches Children::Keys(v) && v@.len() == 0
//@endfn
//@fn Parser::new
  ensures r.root.exprs@.len() == 0, r.errors@.len() == 0, r.line_count == 1, r.keychain@.len() == 0, r.last_table is None, !r.failure, !r.array_error, !r.mixed_array, r.last_array_tables@.len() == 0, r.last_array_tables_index@.len() == 0, r.last_array_type@.len() == 0,
    r.map@.dom() =~= set![litv_root()], r.map@[litv_root()].value is None, r.map@[litv_root()].subkeys matches Children::Keys(k) && k@.len() == 0
//@endfn
pub open spec fn litv_root() -> Txt { seq![36u8, 82, 111, 111, 116, 36] }
//@fn Parser::quoteless_basic_string
  ensures whole(r) <==> lang(3, i.b@)
//@endfn
//@fn Parser::quoteless_ml_basic_string
  ensures lang(4, i.b@) ==> whole(r)
//@endfn
//@fn Parser::quoteless_literal_string
  ensures whole(r) <==> lang(5, i.b@)
//@endfn
//@fn Parser::quoteless_ml_literal_string
  ensures lang(6, i.b@) ==> whole(r)
//@endfn
//@fn Value::is_delimited
  ensures self matches Value::String(s, StrType::MLBasic) ==> r == lang(4, s.b@), self matches Value::String(s, StrType::MLLiteral) ==> r == lang(6, s.b@)
//@start
  proof { reveal_with_fuel(text, 2); }
//@endfn
//@fn Value::validate
  ensures r == valid(*self)
//@inv 0
  __r0 == (forall|i: int| 0 <= i < __n0 ==> valid(#[trigger] arr@[i])),
//@inv 1
  keys_ok(it@.take(__n1 as int)), forall|i: int| 0 <= i < __n1 ==> valid((#[trigger] it@[i]).1),
//@inv 2
  __r2 == (exists|j: int| 0 <= j < __n2 && (#[trigger] it@[j]).0 == it@[i as int].0),
//@end 1
  proof { assert(it@.take(i as int).push(it@[i as int]) =~= it@.take(i + 1)); }
//@after 1
  proof { assert(it@.take(it@.len() as int) =~= it@); }
//@endfn
//@props C06,C08
//@fn Value::int
  ensures r matches Value::Integer(s) && s.b@ == (if int_ < 0 { seq![45u8] + dec(-(int_ as int)) } else { dec(int_ as int) }) && valid(r)
//@start
  proof { let n = if int_ < 0 { -(int_ as int) } else { int_ as int }; dec_plain(n); lang_plain(dec(n)); }
//@endfn
//@fn Value::int_from_str
  ensures r is Ok <==> lang(1, int_.b@), r is Ok ==> r->Ok_0 == Value::Integer(int_)
//@endfn
//@fn Value::float_from_str
  ensures r is Ok <==> lang(2, float.b@), r is Ok ==> r->Ok_0 == Value::Float(float)
//@endfn
//@fn Value::basic_string
  ensures r is Ok <==> lang(3, s.b@), r is Ok ==> r->Ok_0 == Value::String(s, StrType::Basic)
//@endfn
//@fn Value::ml_basic_string
  ensures r is Ok <==> lang(4, s.b@), r is Ok ==> r->Ok_0 == Value::String(s, StrType::MLBasic)
//@endfn
//@fn Value::literal_string
  ensures r is Ok <==> lang(5, s.b@), r is Ok ==> r->Ok_0 == Value::String(s, StrType::Literal)
//@endfn
//@fn Value::ml_literal_string
  ensures r is Ok <==> lang(6, s.b@), r is Ok ==> r->Ok_0 == Value::String(s, StrType::MLLiteral)
//@endfn
