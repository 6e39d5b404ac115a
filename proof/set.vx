//@include mean.vx
//@props C03,C04
pub open spec fn scalar(t: TOMLValue) -> bool { !(t is Array) && !(t is InlineTable) }
/// the value has the arrays, inline tables and keys of the node
pub open spec fn same_shape(t: TOMLValue, v: Value) -> bool decreases v {
  match (t, v) {
    (TOMLValue::Array(a), Value::Array(b)) => a.values@.len() == b@.len() && forall|i: int| 0 <= i < b@.len() ==> same_shape((#[trigger] a.values@[i]).val, b@[i]),
    (TOMLValue::InlineTable(a), Value::InlineTable(b)) => a.keyvals@.len() == b@.len() && forall|i: int| 0 <= i < b@.len() ==> (#[trigger] a.keyvals@[i]).keyval.key == b@[i].0 && same_shape(a.keyvals@[i].keyval.val, b@[i].1),
    _ => scalar(t) && !(v is Array) && !(v is InlineTable),
  }
}
/// everything around the scalars is the same: separators, comments, line breaks and keys
pub open spec fn kept(o: TOMLValue, n: TOMLValue) -> bool decreases n {
  match (o, n) {
    (TOMLValue::Array(a), TOMLValue::Array(b)) => a.values@.len() == b.values@.len() && a.comment_nls1 == b.comment_nls1 && a.comment_nls2 == b.comment_nls2
      && forall|i: int| 0 <= i < b.values@.len() ==> (#[trigger] a.values@[i]).array_sep == b.values@[i].array_sep && a.values@[i].comment_nls == b.values@[i].comment_nls && kept(a.values@[i].val, b.values@[i].val),
    (TOMLValue::InlineTable(a), TOMLValue::InlineTable(b)) => a.keyvals@.len() == b.keyvals@.len() && a.ws == b.ws
      && forall|i: int| 0 <= i < b.keyvals@.len() ==> (#[trigger] a.keyvals@[i]).kv_sep == b.keyvals@[i].kv_sep && a.keyvals@[i].comment_nls == b.keyvals@[i].comment_nls
        && a.keyvals@[i].keyval.key == b.keyvals@[i].keyval.key && a.keyvals@[i].keyval.keyval_sep == b.keyvals@[i].keyval.keyval_sep && kept(a.keyvals@[i].keyval.val, b.keyvals@[i].keyval.val),
    _ => scalar(o) && scalar(n),
  }
}
pub open spec fn no_text() -> Txt { seq![] }
pub open spec fn blank() -> Txt { seq![32u8] }
pub open spec fn wss(a: Txt, b: Txt) -> WSSep { WSSep { ws1: mk(a), ws2: mk(b) } }
/// a comma and a blank after every element but the last
pub open spec fn plain_sep(i: int, n: int) -> Option<WSSep> { if i < n - 1 { Some(wss(no_text(), blank())) } else { None } }
/// a new node for the value, in the default layout
pub open spec fn fresh(t: TOMLValue, v: Value) -> bool decreases v {
  match (t, v) {
    (TOMLValue::Array(a), Value::Array(b)) => a.values@.len() == b@.len() && a.comment_nls1@.len() == 0 && a.comment_nls2@.len() == 0
      && forall|i: int| 0 <= i < b@.len() ==> (#[trigger] a.values@[i]).array_sep == plain_sep(i, b@.len() as int) && a.values@[i].comment_nls@.len() == 0 && fresh(a.values@[i].val, b@[i]),
    (TOMLValue::InlineTable(a), Value::InlineTable(b)) => a.keyvals@.len() == b@.len() && a.ws == wss(blank(), blank())
      && forall|i: int| 0 <= i < b@.len() ==> (#[trigger] a.keyvals@[i]).kv_sep == plain_sep(i, b@.len() as int) && a.keyvals@[i].comment_nls@.len() == 0
        && a.keyvals@[i].keyval.key == b@[i].0 && a.keyvals@[i].keyval.keyval_sep == wss(blank(), blank()) && fresh(a.keyvals@[i].keyval.val, b@[i].1),
    (TOMLValue::Array(_), _) => false, (TOMLValue::InlineTable(_), _) => false,
    (_, Value::Array(_)) => false, (_, Value::InlineTable(_)) => false,
    _ => means(t, v),
  }
}
pub proof fn fresh_means(t: TOMLValue, v: Value) requires fresh(t, v) ensures means(t, v) decreases v {
  reveal_with_fuel(means, 2); reveal_with_fuel(fresh, 2);
  match (t, v) {
    (TOMLValue::Array(a), Value::Array(b)) => { assert forall|i: int| 0 <= i < b@.len() implies means((#[trigger] a.values@[i]).val, b@[i]) by { fresh_means(a.values@[i].val, b@[i]); } }
    (TOMLValue::InlineTable(a), Value::InlineTable(b)) => { assert forall|i: int| 0 <= i < b@.len() implies (#[trigger] a.keyvals@[i]).keyval.key == b@[i].0 && means(a.keyvals@[i].keyval.val, b@[i].1) by { fresh_means(a.keyvals@[i].keyval.val, b@[i].1); } }
    _ => {}
  }
}
//@fn ArrayValue::default
  ensures r.val == val, r.array_sep == plain_sep(0, 2), r.comment_nls@.len() == 0
//@endfn
//@fn ArrayValue::last
  ensures r.val == val, r.array_sep is None, r.comment_nls@.len() == 0
//@endfn
//@fn TableKeyVal::default
  ensures r.keyval.key == key, r.keyval.val == val, r.keyval.keyval_sep == wss(blank(), blank()), r.kv_sep == plain_sep(0, 2), r.comment_nls@.len() == 0
//@endfn
//@fn TableKeyVal::last
  ensures r.keyval.key == key, r.keyval.val == val, r.keyval.keyval_sep == wss(blank(), blank()), r.kv_sep is None, r.comment_nls@.len() == 0
//@endfn
//@fn Parser::convert_vector props=C03,C04,C05,C06 ty=values:Vec<ArrayValue> ty=key_values:Vec<TableKeyVal>
  ensures r is Some <==> valid(*tval),
    r matches Some(t) ==> fresh(t, *tval) && means(t, *tval) //#C03,C04
//@inv 0
  values@.len() == __n0, forall|j: int| 0 <= j < __n0 ==> valid(#[trigger] arr@[j]),
  forall|j: int| 0 <= j < __n0 ==> (#[trigger] values@[j]).array_sep == plain_sep(j, arr@.len() as int) && values@[j].comment_nls@.len() == 0 && fresh(values@[j].val, arr@[j]), //#C03,C04
//@after 0
  proof { reveal_with_fuel(fresh, 2); reveal_with_fuel(valid, 2); assert forall|t: TOMLValue| #[trigger] fresh(t, *tval) implies means(t, *tval) by { fresh_means(t, *tval); } }
//@inv 1
  key_values@.len() == __n1, forall|j: int| 0 <= j < __n1 ==> valid((#[trigger] it@[j]).1),
  forall|j: int| 0 <= j < __n1 ==> (#[trigger] key_values@[j]).kv_sep == plain_sep(j, it@.len() as int) && key_values@[j].comment_nls@.len() == 0 && key_values@[j].keyval.key == it@[j].0 && key_values@[j].keyval.keyval_sep == wss(blank(), blank()) && fresh(key_values@[j].keyval.val, it@[j].1), //#C03,C04
//@after 1
  proof { reveal_with_fuel(fresh, 2); reveal_with_fuel(valid, 2); assert forall|t: TOMLValue| #[trigger] fresh(t, *tval) implies means(t, *tval) by { fresh_means(t, *tval); } }
//@endfn
//@fn Parser::same_structure props=C03,C04
  ensures r == (valid(*tval) && same_shape(*val_rf, *tval))
//@inv 0
  forall|j: int| 0 <= j < __n0 ==> same_shape((#[trigger] arr.values@[j]).val, t_arr@[j]),
//@inv 1
  forall|j: int| 0 <= j < __n1 ==> (#[trigger] it.keyvals@[j]).keyval.key == t_it@[j].0 && same_shape(it.keyvals@[j].keyval.val, t_it@[j].1),
//@endfn
//@fn Parser::replace_values props=C03,C04 mut=val_rf
  requires same_shape(*old(val_rf), *tval)
  ensures r, means(*final(val_rf), *tval), kept(*old(val_rf), *final(val_rf))
//@inv 0
  len == t_arr@.len(), borrow.values@.len() == len, ({ let a = old(val_rf)->Array_0; a.values@.len() == len && a.comment_nls1 == borrow.comment_nls1 && a.comment_nls2 == borrow.comment_nls2
    && (forall|j: int| 0 <= j < len ==> (#[trigger] a.values@[j]).array_sep == borrow.values@[j].array_sep && a.values@[j].comment_nls == borrow.values@[j].comment_nls)
    && (forall|j: int| 0 <= j < __n0 ==> kept(a.values@[j].val, (#[trigger] borrow.values@[j]).val) && means(borrow.values@[j].val, t_arr@[j]))
    && (forall|j: int| __n0 <= j < len ==> a.values@[j].val == (#[trigger] borrow.values@[j]).val && same_shape(borrow.values@[j].val, t_arr@[j])) }),
//@inv 1
  len == t_it@.len(), borrow.keyvals@.len() == len, ({ let a = old(val_rf)->InlineTable_0; a.keyvals@.len() == len && a.ws == borrow.ws
    && (forall|j: int| 0 <= j < len ==> (#[trigger] a.keyvals@[j]).kv_sep == borrow.keyvals@[j].kv_sep && a.keyvals@[j].comment_nls == borrow.keyvals@[j].comment_nls
       && a.keyvals@[j].keyval.key == borrow.keyvals@[j].keyval.key && a.keyvals@[j].keyval.keyval_sep == borrow.keyvals@[j].keyval.keyval_sep && a.keyvals@[j].keyval.key == t_it@[j].0)
    && (forall|j: int| 0 <= j < __n1 ==> kept(a.keyvals@[j].keyval.val, (#[trigger] borrow.keyvals@[j]).keyval.val) && means(borrow.keyvals@[j].keyval.val, t_it@[j].1))
    && (forall|j: int| __n1 <= j < len ==> a.keyvals@[j].keyval.val == (#[trigger] borrow.keyvals@[j]).keyval.val && same_shape(borrow.keyvals@[j].keyval.val, t_it@[j].1)) }),
//@endfn
// ---------------------------------------------------------------- keys below a key
pub open spec fn dotted(key: Txt, c: Txt) -> Txt { key + (seq![46u8] + c) }
pub open spec fn opens(x: Txt) -> bool { x.len() == 0 || x[0] == 46 || x[0] == 91 }
/// k names something inside of key
pub open spec fn below(key: Txt, k: Txt) -> bool { k.len() > key.len() && k.take(key.len() as int) == key && (k[key.len() as int] == 46 || k[key.len() as int] == 91) }
pub open spec fn within(key: Txt, k: Txt) -> bool { k == key || below(key, k) }
/// c is the key of a child of an entry
pub open spec fn child_of(s: Children, key: Txt, c: Txt) -> bool {
  match s { Children::Count(n) => exists|i: int| 0 <= i < n && c == #[trigger] indexed(key, i), Children::Keys(v) => exists|i: int| 0 <= i < v@.len() && c == dotted(key, (#[trigger] v@[i]).b@) }
}
/// n steps from entry to child lead from a to k
pub open spec fn reach(m: Map<Txt, HashValue>, a: Txt, k: Txt, n: nat) -> bool decreases n {
  if n == 0 { a == k } else { exists|c: Txt| m.dom().contains(a) && #[trigger] child_of(m[a].subkeys, a, c) && reach(m, c, k, (n - 1) as nat) }
}
pub open spec fn has_reached(m: Map<Txt, HashValue>, a: Txt, v: Seq<Str>) -> bool { forall|k: Txt, n: nat| n > 0 && #[trigger] reach(m, a, k, n) ==> occurs(v, k) }
pub broadcast proof fn below_dotted(key: Txt, c: Txt) ensures below(key, #[trigger] dotted(key, c)) { assert(dotted(key, c).take(key.len() as int) =~= key); }
pub broadcast proof fn below_indexed(key: Txt, i: int) ensures below(key, #[trigger] indexed(key, i)) { assert(indexed(key, i).take(key.len() as int) =~= key); }
pub broadcast proof fn below_trans(a: Txt, b: Txt, c: Txt) requires #[trigger] below(a, b), #[trigger] below(b, c) ensures below(a, c) { assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int)); assert(c[a.len() as int] == c.take(b.len() as int)[a.len() as int]); }
pub broadcast group below_lemmas { below_dotted, below_indexed, below_trans }
pub proof fn reach_one(m: Map<Txt, HashValue>, key: Txt, v: Seq<Str>) requires m.dom().contains(key) ==> forall|c: Txt| #[trigger] child_of(m[key].subkeys, key, c) ==> occurs(v, c) && has_reached(m, c, v) ensures has_reached(m, key, v) {
  assert forall|k: Txt, n: nat| n > 0 && #[trigger] reach(m, key, k, n) implies occurs(v, k) by {
    reveal_with_fuel(reach, 2); let c = choose|c: Txt| m.dom().contains(key) && #[trigger] child_of(m[key].subkeys, key, c) && reach(m, c, k, (n - 1) as nat);
    if n - 1 > 0 { assert(has_reached(m, c, v)); } }
}
//@fn Parser::get_all_subkeys ty=all_keys:Vec<Str> props=C03,C04
  ensures forall|i: int| 0 <= i < r@.len() ==> below(key.b@, (#[trigger] r@[i]).b@), has_reached(self.map@, key.b@, r@)
//@start
  broadcast use {has_lemmas, below_lemmas};
//@inv 0
  forall|i: int| 0 <= i < all_keys@.len() ==> below(key.b@, (#[trigger] all_keys@[i]).b@), forall|j: int| 0 <= j < __n0 ==> occurs(all_keys@, #[trigger] indexed(key.b@, j)) && has_reached(self.map@, indexed(key.b@, j), all_keys@),
//@end 0
  proof { assert(subkey.b@ == indexed(key.b@, i as int)); }
//@after 0
  proof { reach_one(self.map@, key.b@, all_keys@); }
//@inv 1
  forall|i: int| 0 <= i < all_keys@.len() ==> below(key.b@, (#[trigger] all_keys@[i]).b@), forall|j: int| 0 <= j < __n1 ==> occurs(all_keys@, dotted(key.b@, (#[trigger] rc_hs@[j]).b@)) && has_reached(self.map@, dotted(key.b@, rc_hs@[j].b@), all_keys@),
//@end 1
  proof { assert(subkey.b@ == dotted(key.b@, childkey.b@)); }
//@after 1
  proof { reach_one(self.map@, key.b@, all_keys@); }
//@endfn
/// decided in proof/relang.py
pub axiom fn quoted_keys(a: Txt) ensures lang(7, a) ==> a.len() >= 2 && a[0] == 34 && forall|b: Txt| #[trigger] lang(7, b) && a.len() <= b.len() && b.take(a.len() as int) == a ==> a == b;
pub proof fn key_end(a: Txt, b: Txt, x: Txt, y: Txt) requires one_key(a), one_key(b), opens(x), opens(y), a + x == b + y, a.len() <= b.len() ensures a == b {
  quoted_keys(a); quoted_keys(b);
  assert(b.take(a.len() as int) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { let l = a + x; let r = b + y; assert(l[i] == a[i]); assert(r[i] == b[i]); assert(l == r); } }
  if a.len() == b.len() { assert(a =~= b); }
  else if bare(a) { assert((a + x)[a.len() as int] == (b + y)[a.len() as int]); if x.len() > 0 { assert((a + x)[a.len() as int] == x[0]); } assert(b[a.len() as int] == x[0]); if bare(b) { assert(keybyte(b[a.len() as int])); } else { assert(a[0] == b.take(a.len() as int)[0]); assert(keybyte(a[0])); } }
  else { assert(b[0] == b.take(a.len() as int)[0]); if bare(b) { assert(keybyte(b[0])); } }
}
pub proof fn within_tail(p: Txt, k: Txt) requires within(p, k) ensures opens(k.skip(p.len() as int)), p + k.skip(p.len() as int) == k {
  let x = k.skip(p.len() as int);
  if k == p { assert(x.len() == 0); } else { assert(x[0] == k[p.len() as int]); base::split_at(k, p.len() as int); }
}
pub proof fn same_end(key: Txt, d: Txt, a: Txt, x: Txt) requires d.len() == 1 ensures ((key + (d + a)) + x).skip(key.len() as int + 1) == a + x { assert(((key + (d + a)) + x).skip(key.len() as int + 1) =~= a + x); }
/// different children have nothing in common below them
pub broadcast proof fn keys_apart(key: Txt, a: Txt, b: Txt, k: Txt) requires one_key(a), one_key(b), a != b, #[trigger] within(dotted(key, a), k) ensures !#[trigger] within(dotted(key, b), k) {
  if within(dotted(key, b), k) {
    within_tail(dotted(key, a), k); within_tail(dotted(key, b), k);
    let x = k.skip(dotted(key, a).len() as int); let y = k.skip(dotted(key, b).len() as int);
    same_end(key, seq![46u8], a, x); same_end(key, seq![46u8], b, y);
    if a.len() <= b.len() { key_end(a, b, x, y); } else { key_end(b, a, y, x); }
  }
}
pub proof fn index_end(i: int, j: int, x: Txt, y: Txt) requires 0 <= i, 0 <= j, dec(i) + (seq![93u8] + x) == dec(j) + (seq![93u8] + y), dec(i).len() <= dec(j).len() ensures i == j {
  dec_num(i); dec_num(j); let (a, b) = (dec(i), dec(j)); let (l, r) = (a + (seq![93u8] + x), b + (seq![93u8] + y));
  if a.len() < b.len() { assert(l[a.len() as int] == 93); assert(r[a.len() as int] == b[a.len() as int]); assert(digit(b[a.len() as int])); }
  assert(a =~= b) by { assert forall|q: int| 0 <= q < a.len() implies a[q] == b[q] by { assert(l[q] == r[q]); } }
}
pub broadcast proof fn indexes_apart(key: Txt, i: int, j: int, k: Txt) requires 0 <= i, 0 <= j, i != j, #[trigger] within(indexed(key, i), k) ensures !#[trigger] within(indexed(key, j), k) {
  if within(indexed(key, j), k) {
    within_tail(indexed(key, i), k); within_tail(indexed(key, j), k);
    let x = k.skip(indexed(key, i).len() as int); let y = k.skip(indexed(key, j).len() as int);
    same_end(key, seq![91u8], dec(i) + seq![93u8], x); same_end(key, seq![91u8], dec(j) + seq![93u8], y);
    if dec(i).len() <= dec(j).len() { index_end(i, j, x, y); } else { index_end(j, i, y, x); }
  }
}
pub broadcast proof fn within_trans(a: Txt, b: Txt, c: Txt) requires #[trigger] within(a, b), #[trigger] within(b, c) ensures within(a, c) { if a != b && b != c { below_trans(a, b, c); } }
// ---------------------------------------------------------------- the entries of a value
pub open spec fn keys_fine(t: TOMLValue) -> bool decreases t {
  match t {
    TOMLValue::Array(a) => forall|i: int| 0 <= i < a.values@.len() ==> keys_fine((#[trigger] a.values@[i]).val),
    TOMLValue::InlineTable(a) => (forall|i: int| 0 <= i < a.keyvals@.len() ==> one_key((#[trigger] a.keyvals@[i]).keyval.key.b@) && keys_fine(a.keyvals@[i].keyval.val))
      && forall|i: int, j: int| 0 <= j < i < a.keyvals@.len() ==> (#[trigger] a.keyvals@[j]).keyval.key != (#[trigger] a.keyvals@[i]).keyval.key,
    _ => true,
  }
}
pub proof fn valid_keys(t: TOMLValue, v: Value) requires valid(v), means(t, v) ensures keys_fine(t) decreases t {
  match (t, v) {
    (TOMLValue::Array(a), Value::Array(b)) => { assert forall|i: int| 0 <= i < a.values@.len() implies keys_fine((#[trigger] a.values@[i]).val) by { valid_keys(a.values@[i].val, b@[i]); } }
    (TOMLValue::InlineTable(a), Value::InlineTable(b)) => { assert forall|i: int| 0 <= i < a.keyvals@.len() implies one_key((#[trigger] a.keyvals@[i]).keyval.key.b@) && keys_fine(a.keyvals@[i].keyval.val) by { valid_keys(a.keyvals@[i].keyval.val, b@[i].1); }
      assert forall|i: int, j: int| 0 <= j < i < a.keyvals@.len() implies (#[trigger] a.keyvals@[j]).keyval.key != (#[trigger] a.keyvals@[i]).keyval.key by { assert(b@[j].0 != b@[i].0); } }
    _ => {}
  }
}
pub open spec fn same_at(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, k: Txt) -> bool { m.dom().contains(k) == n.dom().contains(k) && (m.dom().contains(k) ==> m[k] == n[k]) }
pub open spec fn nothing_below(m: Map<Txt, HashValue>, key: Txt) -> bool { forall|k: Txt| #[trigger] below(key, k) ==> !m.dom().contains(k) }
pub open spec fn holds(m: Map<Txt, HashValue>, key: Txt, t: TOMLValue) -> bool { m.dom().contains(key) && m[key].value == Some(t) }
/// the entries of the value at key: its own children, and every child an entry that holds it
pub open spec fn built(m: Map<Txt, HashValue>, key: Txt, t: TOMLValue) -> bool decreases t {
  m.dom().contains(key) && match t {
    TOMLValue::Array(a) => m[key].subkeys == Children::Count(a.values@.len() as usize) && forall|i: int| 0 <= i < a.values@.len() ==> holds(m, indexed(key, i), (#[trigger] a.values@[i]).val) && built(m, indexed(key, i), a.values@[i].val),
    TOMLValue::InlineTable(a) => (m[key].subkeys matches Children::Keys(v) && v@.len() == a.keyvals@.len() && forall|i: int| 0 <= i < a.keyvals@.len() ==> v@[i] == (#[trigger] a.keyvals@[i]).keyval.key)
      && forall|i: int| 0 <= i < a.keyvals@.len() ==> holds(m, dotted(key, (#[trigger] a.keyvals@[i]).keyval.key.b@), a.keyvals@[i].keyval.val) && built(m, dotted(key, a.keyvals@[i].keyval.key.b@), a.keyvals@[i].keyval.val),
    _ => m[key].subkeys == Children::Count(0),
  }
}
pub proof fn built_frame(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, key: Txt, t: TOMLValue) requires built(m, key, t), forall|k: Txt| #[trigger] within(key, k) ==> same_at(m, n, k) ensures built(n, key, t) decreases t {
  broadcast use {below_lemmas, within_trans};
  assert(within(key, key));
  match t {
    TOMLValue::Array(a) => { assert forall|i: int| 0 <= i < a.values@.len() implies holds(n, indexed(key, i), (#[trigger] a.values@[i]).val) && built(n, indexed(key, i), a.values@[i].val) by { assert(within(key, indexed(key, i))); built_frame(m, n, indexed(key, i), a.values@[i].val); } }
    TOMLValue::InlineTable(a) => { assert forall|i: int| 0 <= i < a.keyvals@.len() implies holds(n, dotted(key, (#[trigger] a.keyvals@[i]).keyval.key.b@), a.keyvals@[i].keyval.val) && built(n, dotted(key, a.keyvals@[i].keyval.key.b@), a.keyvals@[i].keyval.val) by { assert(within(key, dotted(key, a.keyvals@[i].keyval.key.b@))); built_frame(m, n, dotted(key, a.keyvals@[i].keyval.key.b@), a.keyvals@[i].keyval.val); } }
    _ => {}
  }
}
/// everything of a parser but its map is the same
pub open spec fn rest_same(a: Parser, b: Parser) -> bool { a.root == b.root && a.errors == b.errors && a.leftover == b.leftover && a.line_count == b.line_count && a.last_array_tables == b.last_array_tables && a.last_array_tables_index == b.last_array_tables_index && a.keychain == b.keychain && a.last_table == b.last_table && a.last_array_type == b.last_array_type && a.array_error == b.array_error && a.mixed_array == b.mixed_array && a.failure == b.failure }
/// ... and but its syntax tree
pub open spec fn around_same(a: Parser, b: Parser) -> bool { rest_same(Parser { root: b.root, ..a }, b) }
/// the keys of the children, all below key, with nothing in common
pub open spec fn apart(key: Txt, cs: Seq<Txt>) -> bool {
  &&& forall|i: int| 0 <= i < cs.len() ==> below(key, #[trigger] cs[i])
  &&& forall|i: int, j: int, k: Txt| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j && #[trigger] within(cs[i], k) ==> !#[trigger] within(cs[j], k)
}
pub open spec fn array_keys(key: Txt, n: nat) -> Seq<Txt> { Seq::new(n, |i: int| indexed(key, i)) }
pub open spec fn array_vals(a: Seq<ArrayValue>) -> Seq<TOMLValue> { Seq::new(a.len(), |i: int| a[i].val) }
pub open spec fn table_keys(key: Txt, a: Seq<TableKeyVal>) -> Seq<Txt> { Seq::new(a.len(), |i: int| dotted(key, a[i].keyval.key.b@)) }
pub open spec fn table_vals(a: Seq<TableKeyVal>) -> Seq<TOMLValue> { Seq::new(a.len(), |i: int| a[i].keyval.val) }
pub proof fn array_apart(key: Txt, n: nat) ensures apart(key, array_keys(key, n)) { broadcast use {below_lemmas, indexes_apart}; }
pub proof fn table_apart(key: Txt, t: InlineTable) requires keys_fine(TOMLValue::InlineTable(t)) ensures apart(key, table_keys(key, t.keyvals@)) {
  broadcast use below_lemmas; let cs = table_keys(key, t.keyvals@);
  assert forall|i: int, j: int, k: Txt| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j && #[trigger] within(cs[i], k) implies !#[trigger] within(cs[j], k) by {
    assert(t.keyvals@[i].keyval.key != t.keyvals@[j].keyval.key); keys_apart(key, t.keyvals@[i].keyval.key.b@, t.keyvals@[j].keyval.key.b@, k); }
}
/// the first n children are there, and nothing else below key
pub open spec fn partial(ms: Map<Txt, HashValue>, m: Map<Txt, HashValue>, key: Txt, hv: HashValue, cs: Seq<Txt>, vs: Seq<TOMLValue>, n: int, clean: bool) -> bool {
  &&& forall|k: Txt| !within(key, k) ==> #[trigger] same_at(ms, m, k)
  &&& m.dom().contains(key) && m[key] == hv
  &&& clean ==> forall|j: int| 0 <= j < n ==> holds(m, #[trigger] cs[j], vs[j]) && built(m, cs[j], vs[j])
  &&& clean ==> forall|k: Txt| #[trigger] m.dom().contains(k) && below(key, k) ==> exists|j: int| 0 <= j < n && within(#[trigger] cs[j], k)
}
pub proof fn none_yet(ms: Map<Txt, HashValue>, m: Map<Txt, HashValue>, key: Txt, hv: HashValue, cs: Seq<Txt>, vs: Seq<TOMLValue>, n: int) requires partial(ms, m, key, hv, cs, vs, n, true), apart(key, cs), 0 <= n < cs.len()
  ensures !m.dom().contains(cs[n]), nothing_below(m, cs[n]) {
  broadcast use {below_lemmas, within_trans};
  assert forall|k: Txt| #[trigger] within(cs[n], k) implies !m.dom().contains(k) by { if m.dom().contains(k) { assert(within(key, cs[n])); assert(within(key, k)); let j = choose|j: int| 0 <= j < n && within(#[trigger] cs[j], k); } }
  assert(within(cs[n], cs[n]));
  assert forall|k: Txt| #[trigger] below(cs[n], k) implies !m.dom().contains(k) by { assert(within(cs[n], k)); }
}
pub proof fn one_more(ms: Map<Txt, HashValue>, m: Map<Txt, HashValue>, w: Map<Txt, HashValue>, key: Txt, hv: HashValue, cs: Seq<Txt>, vs: Seq<TOMLValue>, n: int, clean: bool)
  requires partial(ms, m, key, hv, cs, vs, n, clean), 0 <= n < cs.len(), forall|i: int| 0 <= i < cs.len() ==> below(key, #[trigger] cs[i]), clean ==> apart(key, cs), forall|k: Txt| !within(cs[n], k) ==> #[trigger] same_at(m, w, k), clean ==> holds(w, cs[n], vs[n]) && built(w, cs[n], vs[n])
  ensures partial(ms, w, key, hv, cs, vs, n + 1, clean) {
  let c = cs[n]; assert(below(key, c)); assert(!within(c, key)); assert(same_at(m, w, key));
  assert forall|k: Txt| !within(key, k) implies #[trigger] same_at(ms, w, k) by { if within(c, k) { within_trans(key, c, k); } assert(same_at(m, w, k)); assert(same_at(ms, m, k)); }
  if clean {
    assert forall|j: int| 0 <= j < n + 1 implies holds(w, #[trigger] cs[j], vs[j]) && built(w, cs[j], vs[j]) by {
      if j < n { assert forall|k: Txt| #[trigger] within(cs[j], k) implies same_at(m, w, k) by { assert(!within(cs[n], k)); } assert(within(cs[j], cs[j])); built_frame(m, w, cs[j], vs[j]); } }
    assert forall|k: Txt| #[trigger] w.dom().contains(k) && below(key, k) implies exists|j: int| 0 <= j < n + 1 && within(#[trigger] cs[j], k) by { if !within(c, k) { assert(same_at(m, w, k)); let j = choose|j: int| 0 <= j < n && within(#[trigger] cs[j], k); assert(within(cs[j], k)); } else { assert(within(cs[n], k)); } }
  }
}
//@fn Parser::rebuild_vector
  ensures rest_same(*old(self), *final(self)),
    forall|k: Txt| #![trigger same_at(old(self).map@, final(self).map@, k)] #![trigger final(self).map@.dom().contains(k)] !within(key.b@, k) ==> same_at(old(self).map@, final(self).map@, k),
    final(self).map@.dom().contains(key.b@),
    final(self).map@[key.b@].value == (if old(self).map@.dom().contains(key.b@) && (skip || scalar(val)) { old(self).map@[key.b@].value } else { Some(val) }),
    keys_fine(val) && nothing_below(old(self).map@, key.b@) ==> built(final(self).map@, key.b@, val),
    writable(val) && fine(old(self).map@) ==> fine(final(self).map@),
//@start
  broadcast use below_lemmas;
  let ghost ms = self.map@;
  let ghost clean = keys_fine(val) && nothing_below(ms, key.b@);
  let ghost hval = if ms.dom().contains(key.b@) && skip { ms[key.b@].value } else { Some(val) };
  let ghost (acs, avs) = (array_keys(key.b@, val->Array_0.values@.len()), array_vals(val->Array_0.values@));
  let ghost (tcs, tvs) = (table_keys(key.b@, val->InlineTable_0.keyvals@), table_vals(val->InlineTable_0.keyvals@));
  proof { array_apart(key.b@, val->Array_0.values@.len()); if val is InlineTable && clean { table_apart(key.b@, val->InlineTable_0); } assert(within(key.b@, key.b@)); assert forall|k: Txt| !within(key.b@, k) implies k != key.b@ by {} }
//@inv 0
  rest_same(*old(self), *self), writable(val) && fine(ms) ==> fine(self.map@), partial(ms, self.map@, key.b@, HashValue { value: hval, subkeys: Children::Count(arr.values@.len() as usize) }, acs, avs, __n0 as int, clean),
//@body 0
  let ghost m0 = self.map@;
  proof { if clean { none_yet(ms, m0, key.b@, m0[key.b@], acs, avs, i as int); assert(keys_fine(arr.values@[i as int].val)); } }
//@end 0
  proof { assert(subkey.b@ == acs[i as int]); one_more(ms, m0, self.map@, key.b@, m0[key.b@], acs, avs, i as int, clean); }
//@after 0
  proof { if clean { assert forall|j: int| 0 <= j < arr.values@.len() implies holds(self.map@, indexed(key.b@, j), (#[trigger] arr.values@[j]).val) && built(self.map@, indexed(key.b@, j), arr.values@[j].val) by { assert(acs[j] == indexed(key.b@, j) && avs[j] == arr.values@[j].val); } } }
//@inv 1
  clean ==> child_keys@.len() == __n1 && forall|j: int| 0 <= j < __n1 ==> (#[trigger] child_keys@[j]) == it.keyvals@[j].keyval.key,
//@body 1
  let ghost ck = child_keys@;
  proof { if clean && occurs(ck, it.keyvals@[i as int].keyval.key.b@) { let j = choose|j: int| 0 <= j < ck.len() && (#[trigger] ck[j]).b@ == it.keyvals@[i as int].keyval.key.b@; assert(it.keyvals@[j].keyval.key != it.keyvals@[i as int].keyval.key); } }
//@inv 2
  rest_same(*old(self), *self), writable(val) && fine(ms) ==> fine(self.map@), partial(ms, self.map@, key.b@, self.map@[key.b@], tcs, tvs, __n2 as int, clean), self.map@[key.b@].value == hval,
  clean ==> self.map@[key.b@].subkeys is Keys && ({ let v = self.map@[key.b@].subkeys->Keys_0; v@.len() == it.keyvals@.len() && forall|j: int| 0 <= j < v@.len() ==> v@[j] == (#[trigger] it.keyvals@[j]).keyval.key }),
//@body 2
  let ghost m0 = self.map@;
  proof { if clean { none_yet(ms, m0, key.b@, m0[key.b@], tcs, tvs, i as int); assert(keys_fine(it.keyvals@[i as int].keyval.val)); } }
//@end 2
  proof { assert(subkey.b@ == tcs[i as int]); one_more(ms, m0, self.map@, key.b@, m0[key.b@], tcs, tvs, i as int, clean); }
//@after 2
  proof { if clean { assert forall|j: int| 0 <= j < it.keyvals@.len() implies holds(self.map@, dotted(key.b@, (#[trigger] it.keyvals@[j]).keyval.key.b@), it.keyvals@[j].keyval.val) && built(self.map@, dotted(key.b@, it.keyvals@[j].keyval.key.b@), it.keyvals@[j].keyval.val) by { assert(tcs[j] == dotted(key.b@, it.keyvals@[j].keyval.key.b@) && tvs[j] == it.keyvals@[j].keyval.val); } } }
//@endfn
/// what a successful set leaves behind at the key
pub open spec fn was_set(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, key: Txt, v: Value) -> bool { set_here(m, n, key, v) && set_rest(m, n, key, v) && set_inside(m, n, key, v) }
/// its own node: the value, and everything but the scalars as it was if the structure is the same
pub open spec fn set_here(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, key: Txt, v: Value) -> bool {
  m.dom().contains(key) && n.dom().contains(key) && m[key].value is Some && n[key].value is Some && ({
    let (o, t) = (m[key].value->0, n[key].value->0);
    means(t, v) && (if same_shape(o, v) { kept(o, t) && n[key].subkeys == m[key].subkeys } else { fresh(t, v) }) })
}
/// the other entries: all of them as they were when the structure is the same, those outside of the key otherwise
pub open spec fn set_rest(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, key: Txt, v: Value) -> bool { forall|k: Txt| (if same_shape(m[key].value->0, v) { k != key } else { !within(key, k) }) ==> #[trigger] same_at(m, n, k) }
/// the entries inside of it are those of the new value
pub open spec fn set_inside(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, key: Txt, v: Value) -> bool { !same_shape(m[key].value->0, v) && rooted(m, key) ==> built(n, key, n[key].value->0) }
/// everything inside of the key can be reached from it
pub open spec fn rooted(m: Map<Txt, HashValue>, key: Txt) -> bool { forall|k: Txt| #[trigger] m.dom().contains(k) && below(key, k) ==> exists|n: nat| n > 0 && #[trigger] reach(m, key, k, n) }
/// a value can be set where a value is
pub open spec fn can_set(m: Map<Txt, HashValue>, key: Txt, v: Value) -> bool { valid(v) && m.dom().contains(key) && m[key].value is Some && m[key].value->0 != TOMLValue::Table }
pub broadcast proof fn same_insert(m: Map<Txt, HashValue>, k: Txt, v: HashValue) requires m.dom().contains(k), v == m[k] ensures #[trigger] m.insert(k, v) == m { assert(m.insert(k, v) =~= m); }
//@fn Parser::set_value props=C03,C04,C05
  ensures around_same(*old(self), *final(self)), !r ==> final(self).root == old(self).root, old(self).root.wf() ==> final(self).root.wf(),
    r == can_set(old(self).map@, key.b@, val), //#C04,C05
    !r ==> final(self).map@ =~= old(self).map@, //#C05
    r ==> set_here(old(self).map@, final(self).map@, key.b@, val), //#C03,C04
    r ==> set_rest(old(self).map@, final(self).map@, key.b@, val), //#C03,C04
    r ==> set_inside(old(self).map@, final(self).map@, key.b@, val), //#C04
    fine(old(self).map@) ==> fine(final(self).map@) //#C04
//@start
  broadcast use {same_insert, has_lemmas};
  proof { assert forall|t: TOMLValue| #[trigger] means(t, val) implies writable(t) by { means_writable(t, val); } }
//@inv 0
  rest_same(*old(self), *self), forall|k: Txt| #[trigger] self.map@.dom().contains(k) <==> old(self).map@.dom().contains(k) && !(exists|j: int| 0 <= j < __n0 && (#[trigger] all_keys@[j]).b@ == k),
  forall|k: Txt| #[trigger] self.map@.dom().contains(k) ==> self.map@[k] == old(self).map@[k],
//@after 0
  proof {
    let m = old(self).map@;
    assert(self.map@.dom().contains(s_key.b@));
    if rooted(m, s_key.b@) { assert forall|k: Txt| #[trigger] below(s_key.b@, k) implies !self.map@.dom().contains(k) by { if m.dom().contains(k) { let n = choose|n: nat| n > 0 && #[trigger] reach(m, s_key.b@, k, n); assert(occurs(all_keys@, k)); } } assert(nothing_below(self.map@, s_key.b@)); }
    assert forall|k: Txt| !within(s_key.b@, k) implies #[trigger] same_at(m, self.map@, k) by { if m.dom().contains(k) && !self.map@.dom().contains(k) { let j = choose|j: int| 0 <= j < all_keys@.len() && (#[trigger] all_keys@[j]).b@ == k; assert(below(s_key.b@, all_keys@[j].b@)); } }
    valid_keys(new_value, val); means_writable(new_value, val);
  }
  let ghost m1 = self.map@;
  assert(forall|k: Txt| #![trigger m1.dom().contains(k)] !within(s_key.b@, k) ==> same_at(old(self).map@, m1, k));
//@endfn
//@props C15
//@fn Parser::get_value props=C04,C15
  requires fine(self.map@)
  ensures r is Some <==> self.map@.dom().contains(key.b@) && self.map@[key.b@].value is Some && self.map@[key.b@].value->0 != TOMLValue::Table,
    r matches Some(v) ==> means(self.map@[key.b@].value->0, v)
//@endfn
pub open spec fn root_key() -> Txt { seq![36u8, 82, 111, 111, 116, 36] }
//@fn Parser::get_children props=C15
  ensures ({ let k = if key.b@.len() == 0 { root_key() } else { key.b@ }; (r is Some <==> self.map@.dom().contains(k)) && (r matches Some(c) ==> *c == self.map@[k].subkeys) })
//@endfn
//@types TOMLParser
//@fn TOMLParser::set_value props=C03,C04,C05
  ensures around_same(old(self).parser, final(self).parser), !r ==> final(self).parser.root == old(self).parser.root, old(self).parser.root.wf() ==> final(self).parser.root.wf(),
    r == can_set(old(self).parser.map@, key.b@, val), //#C04,C05
    !r ==> final(self).parser.map@ =~= old(self).parser.map@, //#C05
    r ==> was_set(old(self).parser.map@, final(self).parser.map@, key.b@, val), fine(old(self).parser.map@) ==> fine(final(self).parser.map@)
//@endfn
//@fn TOMLParser::get_value props=C04,C15
  requires fine(self.parser.map@)
  ensures r is Some <==> self.parser.map@.dom().contains(key.b@) && self.parser.map@[key.b@].value is Some && self.parser.map@[key.b@].value->0 != TOMLValue::Table,
    r matches Some(v) ==> means(self.parser.map@[key.b@].value->0, v)
//@endfn
//@fn TOMLParser::get_children props=C15
  ensures ({ let k = if key.b@.len() == 0 { root_key() } else { key.b@ }; (r is Some <==> self.parser.map@.dom().contains(k)) && (r matches Some(c) ==> *c == self.parser.map@[k].subkeys) })
//@endfn
