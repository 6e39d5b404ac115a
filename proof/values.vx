//@types Value
//@props C01,C16
pub open spec fn ch(c: char) -> Txt { seq![c as u8] }
impl Disp for PosNeg {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { if *self == PosNeg::Pos { ch('+') } else { ch('-') } }
//@fn <PosNeg as Display>::fmt
//@endfn
}
impl Disp for TimeOffsetAmount {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { self.pos_neg.render() + self.hour.b@ + ch(':') + self.minute.b@ }
//@fn <TimeOffsetAmount as Display>::fmt
//@endfn
}
impl Disp for TimeOffset {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { match self { TimeOffset::Zulu => ch('Z'), TimeOffset::Time(a) => a.render() } }
//@fn <TimeOffset as Display>::fmt
//@endfn
}
impl Disp for Date {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { self.year.b@ + ch('-') + self.month.b@ + ch('-') + self.day.b@ }
//@fn <Date as Display>::fmt
//@endfn
}
impl Time {
  pub open spec fn frac_text(&self) -> Txt { match self.fraction { Some(f) => ch('.') + f.b@, None => seq![] } }
  pub open spec fn off_text(&self) -> Txt { match self.offset { Some(o) => o.render(), None => seq![] } }
}
impl Disp for Time {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { ch('T') + self.hour.b@ + ch(':') + self.minute.b@ + ch(':') + self.second.b@ + self.frac_text() + self.off_text() }
//@fn <Time as Display>::fmt
//@endfn
}
impl Disp for DateTime {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { match self.time { Some(t) => self.date.render() + t.render(), None => self.date.render() } }
//@fn <DateTime as Display>::fmt
//@endfn
}
//@props C16
pub open spec fn comma() -> Txt { seq![44u8, 32u8] }
pub open spec fn equals() -> Txt { seq![32u8, 61u8, 32u8] }
/// every element followed by a comma and a space
#[verifier::opaque] pub open spec fn each(v: Seq<Value>, n: int) -> Txt decreases v, n { if n <= 0 || n > v.len() { seq![] } else { each(v, n - 1) + (text(v[n - 1]) + comma()) } }
#[verifier::opaque] pub open spec fn each_kv(v: Seq<(Str, Value)>, n: int) -> Txt decreases v, n { if n <= 0 || n > v.len() { seq![] } else { each_kv(v, n - 1) + (v[n - 1].0.b@ + (equals() + (text(v[n - 1].1) + comma()))) } }
pub open spec fn list(v: Seq<Value>) -> Txt decreases v, v.len() { if v.len() == 0 { seq![] } else { each(v, v.len() - 1) + text(v[v.len() - 1]) } }
pub open spec fn list_kv(v: Seq<(Str, Value)>) -> Txt decreases v, v.len() { if v.len() == 0 { seq![] } else { each_kv(v, v.len() - 1) + (v[v.len() - 1].0.b@ + (equals() + text(v[v.len() - 1].1))) } }
pub proof fn each_next(v: Seq<Value>, n: int) requires 0 <= n < v.len() ensures each(v, n + 1) == each(v, n) + (text(v[n]) + comma()) { reveal_with_fuel(each, 2); reveal_with_fuel(text, 2); reveal_with_fuel(each_kv, 2); }
pub proof fn each_kv_next(v: Seq<(Str, Value)>, n: int) requires 0 <= n < v.len() ensures each_kv(v, n + 1) == each_kv(v, n) + (v[n].0.b@ + (equals() + (text(v[n].1) + comma()))) { reveal_with_fuel(each, 2); reveal_with_fuel(text, 2); reveal_with_fuel(each_kv, 2); }
pub proof fn each_none(v: Seq<Value>, w: Seq<(Str, Value)>) ensures each(v, 0) == Seq::<u8>::empty(), each_kv(w, 0) == Seq::<u8>::empty() { reveal(each); reveal(each_kv); }
pub open spec fn quote_of(t: StrType) -> Txt { match t { StrType::Basic => ch('"'), StrType::MLBasic => seq![34u8, 34, 34], StrType::Literal => ch('\''), StrType::MLLiteral => seq![39u8, 39, 39] } }
/// the canonical text of a value
#[verifier::opaque] pub open spec fn text(v: Value) -> Txt decreases v {
  match v {
    Value::Integer(s) => s.b@, Value::Float(s) => s.b@, Value::Boolean(b) => bool_text(b), Value::DateTime(d) => d.render(),
    Value::String(s, t) => quote_of(t) + (s.b@ + quote_of(t)),
    Value::Array(a) => ch('[') + (list(a@) + ch(']')),
    Value::InlineTable(t) => ch('{') + (list_kv(t@) + ch('}')),
  }
}
impl Disp for Value {
  open spec fn wf(&self) -> bool { true }
  open spec fn render(&self) -> Txt { text(*self) }
//@fn <Value as Display>::fmt
//@attr #[verifier::rlimit(60)]
//@start
  proof { reveal_with_fuel(text, 2); reveal_with_fuel(each, 1); reveal_with_fuel(each_kv, 1); match self { Value::Array(a) => { each_none(a@, seq![]); } Value::InlineTable(t) => { each_none(seq![], t@); } _ => {} } }
//@inv 0
  f.o@ == old(f).o@ + (ch('[') + each(arr@, __n0 as int)),
//@end 0
  proof { each_next(arr@, i as int); }
//@inv 1
  f.o@ == old(f).o@ + (ch('{') + each_kv(it@, __n1 as int)),
//@end 1
  proof { each_kv_next(it@, i as int); }
//@endfn
}
impl Eqx for TimeOffset {
//@fn <TimeOffset as PartialEq>::eq as=eqx
//@endfn
}
impl Eqx for TimeOffsetAmount {
//@fn <TimeOffsetAmount as PartialEq>::eq as=eqx
//@endfn
}
impl Eqx for Date {
//@fn <Date as PartialEq>::eq as=eqx
//@endfn
}
impl Eqx for Time {
//@fn <Time as PartialEq>::eq as=eqx
//@endfn
}
impl Eqx for DateTime {
//@fn <DateTime as PartialEq>::eq as=eqx
//@endfn
}
// derived by the compiler
impl Eqx for PosNeg { #[verifier::external_body] fn eqx(&self, o: &PosNeg) -> (r: bool) { unimplemented!() } }
impl Eqx for StrType { #[verifier::external_body] fn eqx(&self, o: &StrType) -> (r: bool) { unimplemented!() } }
impl Eqx for Value { #[verifier::external_body] fn eqx(&self, o: &Value) -> (r: bool) { unimplemented!() } }
