//@props C03,C04
// ---------------------------------------------------------------- nodes and values
/// the node says what the value says
pub open spec fn means(t: TOMLValue, v: Value) -> bool decreases v {
  match (t, v) {
    (TOMLValue::Integer(a), Value::Integer(b)) => a == b,
    (TOMLValue::Float(a), Value::Float(b)) => a == b,
    (TOMLValue::Boolean(a), Value::Boolean(b)) => a == b,
    (TOMLValue::DateTime(a), Value::DateTime(b)) => a == b,
    (TOMLValue::String(a, s), Value::String(b, t)) => a == b && s == t,
    (TOMLValue::Array(a), Value::Array(b)) => a.values@.len() == b@.len() && forall|i: int| 0 <= i < b@.len() ==> means((#[trigger] a.values@[i]).val, b@[i]),
    (TOMLValue::InlineTable(a), Value::InlineTable(b)) => a.keyvals@.len() == b@.len() && forall|i: int| 0 <= i < b@.len() ==> (#[trigger] a.keyvals@[i]).keyval.key == b@[i].0 && means(a.keyvals@[i].keyval.val, b@[i].1),
    _ => false,
  }
}
/// no part of a value is a table
pub open spec fn writable(t: TOMLValue) -> bool decreases t {
  match t { TOMLValue::Table => false, TOMLValue::Array(a) => forall|i: int| 0 <= i < a.values@.len() ==> writable((#[trigger] a.values@[i]).val), TOMLValue::InlineTable(a) => forall|i: int| 0 <= i < a.keyvals@.len() ==> writable((#[trigger] a.keyvals@[i]).keyval.val), _ => true }
}
/// every value of the map is a table or a value
pub open spec fn fine(m: Map<Txt, HashValue>) -> bool { forall|k: Txt| #[trigger] m.dom().contains(k) && m[k].value is Some && m[k].value->0 != TOMLValue::Table ==> writable(m[k].value->0) }
pub proof fn means_writable(t: TOMLValue, v: Value) requires means(t, v) ensures writable(t) decreases v {
  reveal_with_fuel(means, 2); reveal_with_fuel(writable, 2);
  match (t, v) {
    (TOMLValue::Array(a), Value::Array(b)) => { assert forall|i: int| 0 <= i < a.values@.len() implies writable((#[trigger] a.values@[i]).val) by { means_writable(a.values@[i].val, b@[i]); } }
    (TOMLValue::InlineTable(a), Value::InlineTable(b)) => { assert forall|i: int| 0 <= i < a.keyvals@.len() implies writable((#[trigger] a.keyvals@[i]).keyval.val) by { means_writable(a.keyvals@[i].keyval.val, b@[i].1); } }
    _ => {}
  }
}
//@fn Parser::insert mut=vector props=C04,C10
  ensures r == !occurs(old(vector)@, insert.b@), final(vector)@ == (if r { old(vector)@.push(insert) } else { old(vector)@ })
//@inv 0
  forall|j: int| 0 <= j < __n0 ==> (#[trigger] vector@[j]).b@ != insert.b@, *vector == *old(vector),
//@endfn
//@props C10,C15
//@fn Parser::sanitize_array ty=result:Vec<Value>
  requires writable(TOMLValue::Array(arr))
  ensures means(TOMLValue::Array(arr), r)
//@inv 0
  result@.len() == __n0, forall|j: int| 0 <= j < __n0 ==> means((#[trigger] arr.values@[j]).val, result@[j]),
//@body 0
  proof { assert(writable(arr.values@[__n0 - 1].val)); }
//@endfn
//@fn Parser::sanitize_inline_table ty=result:Vec<(Str,Value)>
  requires writable(TOMLValue::InlineTable(it))
  ensures means(TOMLValue::InlineTable(it), r)
//@inv 0
  result@.len() == __n0, forall|j: int| 0 <= j < __n0 ==> (#[trigger] it.keyvals@[j]).keyval.key == result@[j].0 && means(it.keyvals@[j].keyval.val, result@[j].1),
//@body 0
  proof { assert(writable(it.keyvals@[__n0 - 1].keyval.val)); }
//@endfn
