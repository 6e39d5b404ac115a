pub open spec fn p2(n: usize) -> Str { mk(pad(dec(n as int), 2)) }
pub open spec fn p4(n: usize) -> Str { mk(pad(dec(n as int), 4)) }
pub open spec fn day_exists(y: int, m: int, d: int) -> bool { 1 <= y <= 9999 && 1 <= m <= 12 && 1 <= d <= month_days(y, m) }
pub open spec fn clock_exists(h: int, m: int, s: int) -> bool { 0 <= h <= 23 && 0 <= m <= 59 && 0 <= s <= 59 }
pub open spec fn offset_exists(c: char, h: int, m: int) -> bool { (c == '+' || c == '-') && 0 <= h <= 23 && 0 <= m <= 59 }
pub open spec fn sign_of(t: Txt) -> PosNeg { if t =~= seq![43u8] { PosNeg::Pos } else { PosNeg::Neg } }
pub open spec fn sign_ok(t: Txt) -> bool { t =~= seq![43u8] || t =~= seq![45u8] }
pub proof fn day_digits(y: int, m: int, d: int) requires y >= 0, m >= 0, d >= 0 ensures date_ok(pad(dec(y), 4), pad(dec(m), 2), pad(dec(d), 2)) == day_exists(y, m, d) {
  pad_dec(y, 4); pad_dec(m, 2); pad_dec(d, 2); reveal_with_fuel(pow10, 5);
}
pub proof fn clock_digits(h: int, m: int, s: int) requires h >= 0, m >= 0, s >= 0 ensures clock_ok(pad(dec(h), 2), pad(dec(m), 2), pad(dec(s), 2)) == clock_exists(h, m, s) {
  pad_dec(h, 2); pad_dec(m, 2); pad_dec(s, 2); reveal_with_fuel(pow10, 5);
}
pub proof fn offset_digits(c: char, h: int, m: int) requires h >= 0, m >= 0 ensures (sign_ok(char_bytes(c)) && amount_ok(pad(dec(h), 2), pad(dec(m), 2))) == offset_exists(c, h, m), sign_of(char_bytes(c)) == (if c == '+' { PosNeg::Pos } else { PosNeg::Neg }) {
  pad_dec(h, 2); pad_dec(m, 2); reveal_with_fuel(pow10, 5);
  assert(seq![43u8][0] == 43u8 && seq![45u8][0] == 45u8); let b = char_bytes(c); if b.len() == 1 { assert(b[0] == (c as u32) as u8); }
}
pub open spec fn dt(y: Str, m: Str, d: Str, t: Option<Time>) -> Value { Value::DateTime(DateTime { date: Date { year: y, month: m, day: d }, time: t }) }
pub open spec fn tm(h: Str, m: Str, s: Str, f: Option<Str>, o: Option<TimeOffset>) -> Option<Time> { Some(Time { hour: h, minute: m, second: s, fraction: f, offset: o }) }
pub open spec fn amt(p: PosNeg, h: Str, m: Str) -> Option<TimeOffset> { Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: p, hour: h, minute: m })) }
//@props C08
//@fn Value::date_from_int props=C07,C08
  ensures r is Ok <==> day_exists(year as int, month as int, day as int),
    r is Ok ==> r->Ok_0 == dt(p4(year), p2(month), p2(day), None),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@start
  proof { day_digits(year as int, month as int, day as int); }
//@endfn
//@fn Value::datetime_from_int props=C07,C08
  ensures r is Ok <==> day_exists(year as int, month as int, day as int) && clock_exists(hour as int, minute as int, second as int),
    r is Ok ==> r->Ok_0 == dt(p4(year), p2(month), p2(day), tm(p2(hour), p2(minute), p2(second), None, None)),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@start
  proof { day_digits(year as int, month as int, day as int); clock_digits(hour as int, minute as int, second as int); }
//@endfn
//@fn Value::datetime_frac_from_int props=C07,C08
  ensures r is Ok <==> day_exists(year as int, month as int, day as int) && clock_exists(hour as int, minute as int, second as int),
    r is Ok ==> r->Ok_0 == dt(p4(year), p2(month), p2(day), tm(p2(hour), p2(minute), p2(second), Some(mk(dec(frac as int))), None)),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@start
  proof { day_digits(year as int, month as int, day as int); clock_digits(hour as int, minute as int, second as int); dec_num(frac as int); }
//@endfn
//@fn Value::datetime_offset_from_int props=C07,C08
  ensures r is Ok <==> day_exists(year as int, month as int, day as int) && clock_exists(hour as int, minute as int, second as int) && offset_exists(posneg, off_hour as int, off_minute as int),
    r is Ok ==> r->Ok_0 == dt(p4(year), p2(month), p2(day), tm(p2(hour), p2(minute), p2(second), None, amt(if posneg == '+' { PosNeg::Pos } else { PosNeg::Neg }, p2(off_hour), p2(off_minute)))),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@start
  proof { day_digits(year as int, month as int, day as int); clock_digits(hour as int, minute as int, second as int); offset_digits(posneg, off_hour as int, off_minute as int); assert(Seq::<u8>::empty() + char_bytes(posneg) =~= char_bytes(posneg)); }
//@endfn
//@fn Value::datetime_zulu_from_int props=C07,C08
  ensures r is Ok <==> day_exists(year as int, month as int, day as int) && clock_exists(hour as int, minute as int, second as int),
    r is Ok ==> r->Ok_0 == dt(p4(year), p2(month), p2(day), tm(p2(hour), p2(minute), p2(second), None, Some(TimeOffset::Zulu))),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@start
  proof { day_digits(year as int, month as int, day as int); clock_digits(hour as int, minute as int, second as int); }
//@endfn
//@fn Value::datetime_full_zulu_from_int props=C07,C08
  ensures r is Ok <==> day_exists(year as int, month as int, day as int) && clock_exists(hour as int, minute as int, second as int),
    r is Ok ==> r->Ok_0 == dt(p4(year), p2(month), p2(day), tm(p2(hour), p2(minute), p2(second), Some(mk(dec(frac as int))), Some(TimeOffset::Zulu))),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@start
  proof { day_digits(year as int, month as int, day as int); clock_digits(hour as int, minute as int, second as int); dec_num(frac as int); }
//@endfn
//@fn Value::datetime_full_from_int props=C07,C08
  ensures r is Ok <==> day_exists(year as int, month as int, day as int) && clock_exists(hour as int, minute as int, second as int) && offset_exists(posneg, off_hour as int, off_minute as int),
    r is Ok ==> r->Ok_0 == dt(p4(year), p2(month), p2(day), tm(p2(hour), p2(minute), p2(second), Some(mk(dec(frac as int))), amt(if posneg == '+' { PosNeg::Pos } else { PosNeg::Neg }, p2(off_hour), p2(off_minute)))),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@start
  proof { day_digits(year as int, month as int, day as int); clock_digits(hour as int, minute as int, second as int); dec_num(frac as int); offset_digits(posneg, off_hour as int, off_minute as int); assert(Seq::<u8>::empty() + char_bytes(posneg) =~= char_bytes(posneg)); }
//@endfn
//@fn Value::date_from_str props=C07,C08
  ensures r is Ok <==> date_ok(year.b@, month.b@, day.b@),
    r is Ok ==> r->Ok_0 == dt(year, month, day, None),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@endfn
//@fn Value::datetime_from_str props=C07,C08
  ensures r is Ok <==> date_ok(year.b@, month.b@, day.b@) && clock_ok(hour.b@, minute.b@, second.b@),
    r is Ok ==> r->Ok_0 == dt(year, month, day, tm(hour, minute, second, None, None)),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@endfn
//@fn Value::datetime_frac_from_str props=C07,C08
  ensures r is Ok <==> date_ok(year.b@, month.b@, day.b@) && clock_ok(hour.b@, minute.b@, second.b@) && frac_ok(Some(frac)),
    r is Ok ==> r->Ok_0 == dt(year, month, day, tm(hour, minute, second, Some(frac), None)),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@endfn
//@fn Value::datetime_offset_from_str props=C07,C08
  ensures r is Ok <==> date_ok(year.b@, month.b@, day.b@) && clock_ok(hour.b@, minute.b@, second.b@) && sign_ok(posneg.b@) && amount_ok(off_hour.b@, off_minute.b@),
    r is Ok ==> r->Ok_0 == dt(year, month, day, tm(hour, minute, second, None, amt(sign_of(posneg.b@), off_hour, off_minute))),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@endfn
//@fn Value::datetime_zulu_from_str props=C07,C08
  ensures r is Ok <==> date_ok(year.b@, month.b@, day.b@) && clock_ok(hour.b@, minute.b@, second.b@),
    r is Ok ==> r->Ok_0 == dt(year, month, day, tm(hour, minute, second, None, Some(TimeOffset::Zulu))),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@endfn
//@fn Value::datetime_full_zulu_from_str props=C07,C08
  ensures r is Ok <==> date_ok(year.b@, month.b@, day.b@) && clock_ok(hour.b@, minute.b@, second.b@) && frac_ok(Some(frac)),
    r is Ok ==> r->Ok_0 == dt(year, month, day, tm(hour, minute, second, Some(frac), Some(TimeOffset::Zulu))),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@endfn
//@fn Value::datetime_full_from_str props=C07,C08
  ensures r is Ok <==> date_ok(year.b@, month.b@, day.b@) && clock_ok(hour.b@, minute.b@, second.b@) && frac_ok(Some(frac)) && sign_ok(posneg.b@) && amount_ok(off_hour.b@, off_minute.b@),
    r is Ok ==> r->Ok_0 == dt(year, month, day, tm(hour, minute, second, Some(frac), amt(sign_of(posneg.b@), off_hour, off_minute))),
    r is Ok ==> (r->Ok_0 matches Value::DateTime(d) && d.ok())
//@endfn
//@fn Value::bool
  ensures r == Value::Boolean(b)
//@endfn
pub open spec fn says(s: Txt, w: Txt) -> bool { ascii(s) && s.map_values(|b: u8| lower(b)) =~= w }
//@fn Value::bool_from_str props=C06,C08
  ensures says(b.b@, bool_text(true)) ==> r is Ok && r->Ok_0 == Value::Boolean(true),
    says(b.b@, bool_text(false)) ==> r is Ok && r->Ok_0 == Value::Boolean(false),
    !says(b.b@, bool_text(true)) && !says(b.b@, bool_text(false)) ==> r is Err
//@endfn
