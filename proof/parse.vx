//@props C01
// ---------------------------------------------------------------- what a production consumes
/// the text read is the text of the node, the rest is untouched
pub open spec fn took<T: Disp>(i: Str, r: IResult<T>) -> bool { match r { IResult::Done(rest, o) => i.b@ == o.render() + rest.b@, _ => true } }
pub open spec fn tookv<T: Disp>(i: Str, r: IResult<Vec<T>>) -> bool { match r { IResult::Done(rest, o) => i.b@ == all(o@) + rest.b@, _ => true } }
pub open spec fn took_av(i: Str, r: IResult<Vec<ArrayValue>>) -> bool { match r { IResult::Done(rest, o) => i.b@ == each_av(o@, o@.len() as int) + rest.b@, _ => true } }
pub open spec fn took_tkv(i: Str, r: IResult<Vec<TableKeyVal>>) -> bool { match r { IResult::Done(rest, o) => i.b@ == each_tkv(o@, o@.len() as int) + rest.b@, _ => true } }
pub open spec fn took_sep(i: Str, r: IResult<WSSep>, c: Txt) -> bool { match r { IResult::Done(rest, o) => i.b@ == o.ws1.b@ + (c + (o.ws2.b@ + rest.b@)), _ => true } }
pub open spec fn wfs(s: Seq<NLExpression>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
/// the text begins and ends with d
pub open spec fn quoted(s: Txt, d: Txt) -> bool { s.len() >= 2 * d.len() && s == d + (s.subrange(d.len() as int, s.len() - d.len()) + d) }
pub open spec fn tookq(i: Str, r: IResult<Str>, d: Txt) -> bool { match r { IResult::Done(rest, o) => i.b@ == o.b@ + rest.b@ && quoted(o.b@, d), _ => true } }
pub open spec fn starts(s: Txt, d: Txt) -> bool { s.len() >= d.len() && s.take(d.len() as int) == d }
//@fn not_eol 
  ensures true
//@endfn
//@fn is_keychar  props=C01,C06
  ensures r == ((chr as u32) < 128 && keybyte((chr as u32) as u8))
//@endfn
//@fn Parser::newline slice
  ensures took(i, r.1), !(r.1 is Incomplete), r.1 matches IResult::Done(rest, _) ==> rest.b@.len() < i.b@.len()
//@endfn
//@fn Parser::comment 
  ensures took(i, r.1)
//@endfn
//@fn Parser::ws 
  ensures took(i, r.1), r.1 is Done
//@endfn
//@fn Parser::toml 
  ensures took(i, r.1), r.1 matches IResult::Done(_, o) ==> o.wf(), r.1 is Done
//@start
  broadcast use base::all_add;
//@endfn
//@fn Parser::nl_expressions 
  ensures tookv(i, r.1), r.1 matches IResult::Done(_, o) ==> wfs(o@), r.1 is Done
//@inv 0
  i.b@ == all(res@) + input.b@, wfs(res@),
//@endfn
//@fn Parser::nl_expression 
  ensures took(i, r.1), r.1 matches IResult::Done(_, o) ==> o.wf(), !(r.1 is Incomplete), r.1 matches IResult::Done(rest, _) ==> rest.b@.len() < i.b@.len()
//@endfn
//@fn Parser::expression 
  ensures took(i, r.1), r.1 matches IResult::Done(_, o) ==> o.wf(), r.1 is Done
//@endfn
//@fn Parser::ws_expr 
  ensures took(i, r.1), r.1 matches IResult::Done(_, o) ==> o.wf(), r.1 is Done
//@endfn
//@fn Parser::table_comment 
  ensures took(i, r.1), r.1 matches IResult::Done(_, o) ==> o.wf()
//@endfn
//@fn Parser::keyval_comment 
  ensures took(i, r.1), r.1 matches IResult::Done(_, o) ==> o.wf()
//@endfn
//@fn Parser::ws_comment 
  ensures took(i, r.1), r.1 matches IResult::Done(_, o) ==> o.wf()
//@endfn
//@fn Parser::table 
  ensures took(i, r.1)
//@endfn
//@fn Parser::table_subkey 
  ensures took(i, r.1)
//@endfn
//@fn Parser::std_table slice
  ensures took(i, r.1)
//@endfn
//@fn Parser::array_table slice
  ensures took(i, r.1)
//@endfn
//@fn Parser::ws_newline 
  ensures took(i, r.1)
//@endfn
//@fn Parser::comment_nl 
  ensures took(i, r.1)
//@endfn
//@fn Parser::comment_or_nl slice
  ensures took(i, r.1)
//@endfn
//@fn Parser::array_value slice
  ensures took(i, r.1)
//@start
  broadcast use {tv_int, tv_float, tv_bool, tv_date, tv_str, tv_array, tv_inline, kv_is, av_is, tkv_is, ar_is, itab_is};
//@endfn
//@fn Parser::table_subkeys 
  ensures tookv(i, r.1)
//@inv 0
  i.b@ == all(res@) + input.b@,
//@endfn
//@fn Parser::array_sep 
  ensures took_sep(i, r.1, ch(','))
//@endfn
//@fn Parser::comment_or_nls 
  ensures tookv(i, r.1)
//@inv 0
  i.b@ == all(res@) + input.b@,
//@endfn
//@fn Parser::array_values 
  ensures took_av(i, r.1)
//@inv 0
  i.b@ == each_av(res@, res@.len() as int) + input.b@,
//@start
  broadcast use base::none_add;
  proof { each_none2(seq![], seq![]); assert forall|s: Seq<ArrayValue>, x: ArrayValue| #[trigger] each_av(s.push(x), (s.len() + 1) as int) == each_av(s, s.len() as int) + av(x) by { each_av_push(s, x); } }
//@endfn
//@fn Parser::array slice
  ensures took(input, r.1)
//@endfn
//@fn Parser::array_internal 
  ensures took(i, r.1)
//@start
  broadcast use {tv_int, tv_float, tv_bool, tv_date, tv_str, tv_array, tv_inline, kv_is, av_is, tkv_is, ar_is, itab_is};
//@endfn
//@fn Parser::table_keyval 
  ensures took(i, r.1)
//@start
  broadcast use {tkv_is, kv_is};
//@endfn
//@fn Parser::inline_table_keyvals_non_empty 
  ensures took_tkv(i, r.1)
//@inv 0
  i.b@ == each_tkv(res@, res@.len() as int) + input.b@,
//@start
  broadcast use base::none_add;
  proof { each_none2(seq![], seq![]); assert forall|s: Seq<TableKeyVal>, x: TableKeyVal| #[trigger] each_tkv(s.push(x), (s.len() + 1) as int) == each_tkv(s, s.len() as int) + tkv(x) by { each_tkv_push(s, x); } }
//@endfn
//@fn Parser::inline_table 
  ensures took(i, r.1)
//@start
  broadcast use {tv_int, tv_float, tv_bool, tv_date, tv_str, tv_array, tv_inline, kv_is, av_is, tkv_is, ar_is, itab_is};
  proof { each_none2(seq![], seq![]); }
//@endfn
//@fn Parser::integer  props=C01,C06
  ensures took(i, r.1), whole(r.1) <==> lang(1, i.b@)
//@endfn
//@fn Parser::float  props=C01,C06
  ensures took(i, r.1), whole(r.1) <==> lang(2, i.b@)
//@endfn
//@fn Parser::raw_basic_string  props=C01,C06
  ensures tookq(i, r.1, ch('"')), forall|t: Txt| i.b@ == ch('"') + (t + ch('"')) ==> (whole(r.1) <==> #[trigger] lang(3, t)), starts(i.b@, seq![34u8, 34, 34]) ==> !whole(r.1)
//@endfn
//@fn Parser::raw_ml_basic_string  props=C01,C06 slice
  ensures tookq(i, r.1, seq![34u8, 34, 34]), forall|t: Txt| i.b@ == seq![34u8, 34, 34] + (t + seq![34u8, 34, 34]) ==> (whole(r.1) <==> #[trigger] lang(4, t))
//@endfn
//@fn Parser::raw_literal_string  props=C01,C06
  ensures tookq(i, r.1, ch('\'')), forall|t: Txt| i.b@ == ch('\'') + (t + ch('\'')) ==> (whole(r.1) <==> #[trigger] lang(5, t)), starts(i.b@, seq![39u8, 39, 39]) ==> !whole(r.1)
//@endfn
//@fn Parser::raw_ml_literal_string  props=C01,C06 slice
  ensures tookq(i, r.1, seq![39u8, 39, 39]), forall|t: Txt| i.b@ == seq![39u8, 39, 39] + (t + seq![39u8, 39, 39]) ==> (whole(r.1) <==> #[trigger] lang(6, t))
//@endfn
//@fn Parser::string  props=C01,C06
  ensures took(i, r.1), forall|t: Txt| i.b@ == seq![34u8, 34, 34] + (t + seq![34u8, 34, 34]) ==> (whole(r.1) <==> #[trigger] lang(4, t)), forall|t: Txt| i.b@ == seq![39u8, 39, 39] + (t + seq![39u8, 39, 39]) ==> (whole(r.1) <==> #[trigger] lang(6, t))
//@start
  broadcast use {tv_int, tv_float, tv_bool, tv_date, tv_str, tv_array, tv_inline, kv_is, av_is, tkv_is, ar_is, itab_is};
  proof {
    let q = seq![34u8, 34, 34]; let a = seq![39u8, 39, 39];
    assert forall|t: Txt| i.b@ == q + (t + q) implies starts(i.b@, q) && i.b@.len() > 0 && i.b@[0] == 34 && #[trigger] lang(4, t) == lang(4, t) by { assert(i.b@.take(3) =~= q); assert(i.b@[0] == q[0]); }
    assert forall|t: Txt| i.b@ == a + (t + a) implies starts(i.b@, a) && i.b@.len() > 0 && i.b@[0] == 39 && #[trigger] lang(6, t) == lang(6, t) by { assert(i.b@.take(3) =~= a); assert(i.b@[0] == a[0]); }
    assert(a[0] == 39 && q[0] == 34 && ch('"')[0] == 34 && ch('\'')[0] == 39);
    assert forall|x: Txt, y: Txt| x.len() > 0 implies #[trigger] (x + y)[0] == x[0] by { }
  }
//@endfn
//@fn Parser::boolean 
  ensures took(i, r.1)
//@endfn
//@fn Parser::time 
  ensures took(i, r.1)
//@endfn
//@fn Parser::time_offset_amount 
  ensures took(i, r.1)
//@endfn
//@fn Parser::time_offset 
  ensures took(i, r.1)
//@endfn
//@fn Parser::date 
  ensures took(i, r.1)
//@endfn
//@fn Parser::date_time_internal 
  ensures took(i, r.1)
//@endfn
//@fn Parser::unquoted_key  props=C01,C06
  ensures took(i, r.1), whole(r.1) <==> bare(i.b@)
//@inv 0
  invariant_except_break forall|k: int| 0 <= k < (if __n0 == 0 { 0 } else { char_end(i.b@, __it0@, __n0 - 1) }) ==> keybyte(#[trigger] i.b@[k]), offset == i.b@.len(), __e0 == __it0@.len(), __e0 == 0 <==> i.b@.len() == 0, __e0 > 0 ==> __it0@[0].0 == 0,
  forall|k: int| 0 <= k < __it0@.len() ==> __it0@[k].0 < #[trigger] char_end(i.b@, __it0@, k) <= i.b@.len() && char_bytes(__it0@[k].1) == i.b@.subrange(__it0@[k].0 as int, char_end(i.b@, __it0@, k)),
  ensures forall|k: int| 0 <= k < offset ==> keybyte(#[trigger] i.b@[k]), offset <= i.b@.len(), offset < i.b@.len() ==> !keybyte(i.b@[offset as int]),
//@body 0
  proof { let e = char_end(i.b@, __it0@, __n0 - 1); let p = __it0@[__n0 - 1]; char_is_keybyte(p.1); assert(char_bytes(p.1)[0] == i.b@[p.0 as int]);
    if __n0 > 1 { assert(char_end(i.b@, __it0@, __n0 - 2) == p.0); }
    if keybyte(i.b@[p.0 as int]) { assert(i.b@.subrange(p.0 as int, e).len() == 1); } }
//@endfn
//@fn Parser::quoted_key  props=C01,C06
  ensures took(i, r.1), whole(r.1) <==> lang(7, i.b@), r.1 is Done ==> i.b@[0] == 34
//@endfn
//@fn Parser::key  props=C01,C06 slice
  ensures took(i, r.1), whole(r.1) <==> one_key(i.b@)
//@endfn
//@fn Parser::val 
  ensures took(i, r.1)
//@start
  broadcast use {tv_int, tv_float, tv_bool, tv_date, tv_str, tv_array, tv_inline, kv_is, av_is, tkv_is, ar_is, itab_is};
//@endfn
//@fn Parser::keyval slice
  ensures took(i, r.1)
//@start
  broadcast use {tv_int, tv_float, tv_bool, tv_date, tv_str, tv_array, tv_inline, kv_is, av_is, tkv_is, ar_is, itab_is};
//@endfn
//@fn Parser::ml_basic_string  props=C01,C06
  ensures match r.1 { IResult::Done(rest, o) => input.b@ == seq![34u8, 34, 34] + (o.b@ + (seq![34u8, 34, 34] + rest.b@)), _ => true }, forall|t: Txt| input.b@ == seq![34u8, 34, 34] + (t + seq![34u8, 34, 34]) ==> (whole(r.1) <==> #[trigger] lang(4, t))
//@endfn
//@fn Parser::basic_string  props=C01,C06
  ensures match r.1 { IResult::Done(rest, o) => input.b@ == ch('"') + (o.b@ + (ch('"') + rest.b@)), _ => true }, forall|t: Txt| input.b@ == ch('"') + (t + ch('"')) ==> (whole(r.1) <==> #[trigger] lang(3, t)), starts(input.b@, seq![34u8, 34, 34]) ==> !whole(r.1)
//@endfn
//@fn Parser::ml_literal_string  props=C01,C06
  ensures match r.1 { IResult::Done(rest, o) => input.b@ == seq![39u8, 39, 39] + (o.b@ + (seq![39u8, 39, 39] + rest.b@)), _ => true }, forall|t: Txt| input.b@ == seq![39u8, 39, 39] + (t + seq![39u8, 39, 39]) ==> (whole(r.1) <==> #[trigger] lang(6, t))
//@endfn
//@fn Parser::literal_string  props=C01,C06
  ensures match r.1 { IResult::Done(rest, o) => input.b@ == ch('\'') + (o.b@ + (ch('\'') + rest.b@)), _ => true }, forall|t: Txt| input.b@ == ch('\'') + (t + ch('\'')) ==> (whole(r.1) <==> #[trigger] lang(5, t)), starts(input.b@, seq![39u8, 39, 39]) ==> !whole(r.1)
//@endfn
//@fn Parser::fractional 
  ensures match r.1 { IResult::Done(rest, o) => o@.len() == 2 && i.b@ == ch('.') + (o@[1].b@ + rest.b@), _ => true }
//@endfn
//@fn Parser::date_time slice
  ensures took(input, r.1)
//@endfn
//@fn Parser::keyval_sep 
  ensures took_sep(i, r.1, ch('='))
//@endfn
