//@types StrType PosNeg TimeOffsetAmount TimeOffset Date Time DateTime TOMLError
// ---------------------------------------------------------------- what a valid date and time is
pub open spec fn two(s: Txt, lo: int, hi: int) -> bool { s.len() == 2 && digits(s) && lo <= num(s) <= hi }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn month_days(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
pub open spec fn date_ok(y: Txt, m: Txt, d: Txt) -> bool { y.len() == 4 && digits(y) && 1 <= num(y) && two(m, 1, 12) && two(d, 1, month_days(num(y), num(m))) }
pub open spec fn clock_ok(h: Txt, m: Txt, s: Txt) -> bool { two(h, 0, 23) && two(m, 0, 59) && two(s, 0, 59) }
pub open spec fn frac_ok(f: Option<Str>) -> bool { match f { Some(f) => f.b@.len() > 0 && digits(f.b@), None => true } }
pub open spec fn amount_ok(h: Txt, m: Txt) -> bool { two(h, 0, 23) && two(m, 0, 59) }
pub open spec fn off_ok(o: Option<TimeOffset>) -> bool { match o { Some(TimeOffset::Time(a)) => a.ok(), _ => true } }
impl TimeOffsetAmount { pub open spec fn ok(&self) -> bool { amount_ok(self.hour.b@, self.minute.b@) } }
impl TimeOffset { pub open spec fn ok(&self) -> bool { match self { TimeOffset::Time(a) => a.ok(), _ => true } } }
impl Date { pub open spec fn ok(&self) -> bool { date_ok(self.year.b@, self.month.b@, self.day.b@) } }
impl Time { pub open spec fn ok(&self) -> bool { clock_ok(self.hour.b@, self.minute.b@, self.second.b@) && frac_ok(self.fraction) && off_ok(self.offset) } }
impl DateTime { pub open spec fn ok(&self) -> bool { self.date.ok() && (self.time is Some ==> self.time->0.ok()) } }
//@props C07
//@fn all_digits
  ensures r == digits(s.b@)
//@inv 0
  __it0.b@ == s.b@, __r0 == forall|j: int| 0 <= j < __n0 ==> digit(#[trigger] s.b@[j]),
//@endfn
//@fn Date::validate_numbers
  requires self.year.b@.len() == 4, self.month.b@.len() == 2, self.day.b@.len() == 2, digits(self.year.b@), digits(self.month.b@), digits(self.day.b@)
  ensures r == self.ok()
//@endfn
//@fn Date::validate
  ensures r == self.ok()
//@endfn
//@fn TimeOffsetAmount::validate_numbers
  requires self.hour.b@.len() == 2, self.minute.b@.len() == 2, digits(self.hour.b@), digits(self.minute.b@)
  ensures r == self.ok()
//@endfn
//@fn TimeOffsetAmount::validate
  ensures r == self.ok()
//@endfn
//@fn TimeOffset::validate
  ensures r == self.ok()
//@endfn
//@fn Time::validate_numbers
  requires self.hour.b@.len() == 2, self.minute.b@.len() == 2, self.second.b@.len() == 2, digits(self.hour.b@), digits(self.minute.b@), digits(self.second.b@)
  ensures r == self.ok()
//@endfn
//@fn Time::validate
  ensures r == self.ok()
//@endfn
//@fn DateTime::validate
  ensures r == self.ok()
//@endfn
//@fn DateTime::new props=C07,C08
  ensures r.date == date, r.time == time
//@endfn
//@fn TOMLError::new props=C08
  ensures r.message == msg
//@endfn
//@fn Date::from_str props=C07,C08
  ensures r is Ok <==> date_ok(year.b@, month.b@, day.b@), r is Ok ==> r->Ok_0.year == year && r->Ok_0.month == month && r->Ok_0.day == day
//@endfn
//@fn Time::from_str props=C07,C08
  ensures r is Ok <==> clock_ok(hour.b@, minute.b@, second.b@) && frac_ok(fraction) && off_ok(offset), r is Ok ==> r->Ok_0.hour == hour && r->Ok_0.minute == minute && r->Ok_0.second == second && r->Ok_0.fraction == fraction && r->Ok_0.offset == offset
//@endfn
//@fn TimeOffsetAmount::from_str props=C07,C08
  ensures r is Ok <==> (pos_neg.b@ =~= seq![43u8] || pos_neg.b@ =~= seq![45u8]) && amount_ok(hour.b@, minute.b@),
    r is Ok ==> r->Ok_0.hour == hour && r->Ok_0.minute == minute && r->Ok_0.pos_neg == (if pos_neg.b@ =~= seq![43u8] { PosNeg::Pos } else { PosNeg::Neg })
//@endfn
