// ---------------------------------------------------------------- the keys of a document
//@props C10,C11,C15
pub open spec fn container(t: TOMLValue) -> bool { t is Array || t is InlineTable }
pub open spec fn rootk() -> Txt { seq![36u8, 82, 111, 111, 116, 36] }
pub open spec fn brack(i: int) -> Txt { seq![91u8] + (dec(i) + seq![93u8]) }
pub open spec fn dot(t: Txt) -> Txt { t + seq![46u8] }
/// a value was given to the key
pub open spec fn has_value(m: Map<Txt, HashValue>, k: Txt) -> bool { m.dom().contains(k) && m[k].value is Some && m[k].value->0 != TOMLValue::Table }
/// the number of tables of the array of tables at the key
pub open spec fn tlen(m: Map<Txt, HashValue>, k: Txt) -> Option<usize> { if m.dom().contains(k) && m[k].value is None && m[k].subkeys is Count && m[k].subkeys->Count_0 > 0 { Some(m[k].subkeys->Count_0) } else { None } }
/// the table that a name stands for inside of a longer one: the last element of an array of tables
pub open spec fn latest(m: Map<Txt, HashValue>, k: Txt) -> Txt { match tlen(m, k) { Some(c) => k + brack(c - 1), None => k } }
//@fn is_container
  ensures r == container(*val)
//@endfn
//@fn Parser::array_table_count
  ensures r == (match hash_value_opt { Some(h) => if h.value is None && h.subkeys is Count && h.subkeys->Count_0 > 0 { Some(h.subkeys->Count_0) } else { None }, None => None })
//@endfn
//@fn Parser::array_table_len
  ensures r == tlen(map@, key.b@)
//@endfn
//@fn Parser::key_has_value
  ensures r == has_value(map@, key.b@)
//@endfn
/// some child of the table has a value
pub open spec fn child_has_value(m: Map<Txt, HashValue>, k: Txt) -> bool { m.dom().contains(k) && m[k].subkeys is Keys && exists|i: int| 0 <= i < m[k].subkeys->Keys_0@.len() && has_value(m, dot(k) + (#[trigger] m[k].subkeys->Keys_0@[i]).b@) }
//@fn Parser::key_has_children_with_values
  requires key.b@ == rootk() || !(map@.dom().contains(key.b@) && map@[key.b@].subkeys is Count && map@[key.b@].subkeys->Count_0 > 0)
  ensures r == (key.b@ != rootk() && child_has_value(map@, key.b@))
//@inv 0
  !(exists|i: int| 0 <= i < __n0 && has_value(map@, dot(key.b@) + (#[trigger] children@[i]).b@)),
//@endfn
// ---------------------------------------------------------------- table headers
/// the names of a header, after the name of the root
pub open spec fn names(t: Table) -> Seq<Str> { seq![mk(rootk())] + t.keys@.map_values(|k: WSKeySep| k.key) }
//@fn get_last_keys ty=last_keys:Vec<Str>
  ensures last_table is None ==> r@ =~= names(*t)
//@inv 0
  last_keys@ =~= seq![mk(rootk())] + t.keys@.take(__n0 as int).map_values(|k: WSKeySep| k.key),
//@after 0
  proof { assert(t.keys@.take(t.keys@.len() as int) =~= t.keys@); }
//@endfn
/// the names with dots between them, the first n
pub open spec fn dots(t: Table, n: int) -> Txt decreases n { if n <= 0 || n > t.keys@.len() { seq![] } else { (if n == 1 { seq![] } else { dot(dots(t, n - 1)) }) + t.keys@[n - 1].key.b@ } }
pub open spec fn header(t: Table) -> Txt { dots(t, t.keys@.len() as int) }
pub open spec fn tab(t: TableType) -> Table { match t { TableType::Standard(x) => x, TableType::Array(x) => x } }
//@fn format_keys
  ensures r.b@ == header(*t)
//@start
  proof { reveal_with_fuel(dots, 2); }
//@inv 0
  s.b@ == (if __n0 == 0 { seq![] } else { dot(dots(*t, __n0 as int)) }),
//@endfn
//@fn format_tt_keys
  ensures r.b@ == header(tab(*tabletype))
//@start
  proof { reveal_with_fuel(dots, 2); }
//@inv 0
  s.b@ == (if __n0 == 0 { seq![] } else { dot(dots(*t, __n0 as int)) }),
//@endfn
/// the table is the other one or inside of it
pub open spec fn part_of(a: Table, b: Table) -> bool { let (k, p) = (header(a), header(b)); k == p || (k.len() > p.len() && k.take((p.len() + 1) as int) == dot(p)) }
//@fn TableType::is_subtable_of
  ensures r == part_of(tab(*self), tab(*prev))
//@endfn
//@fn Parser::is_top_std_table
  ensures r == (tables@.len() > 0 && tables@.last() is Standard)
//@endfn
//@fn Parser::equal_key_length
  ensures r == (tables@.len() > 0 && tab(table).keys@.len() == tab(tables@.last()).keys@.len())
//@endfn
// ---------------------------------------------------------------- the key of a value
/// the text of the keys and indices that lead to a value, the first n
pub open spec fn chain(c: Seq<Key>, n: int) -> Txt decreases n { if n <= 0 || n > c.len() { seq![] } else { let t = chain(c, n - 1); match c[n - 1] { Key::Str(s) => (if t.len() > 0 { dot(t) } else { t }) + s.b@, Key::Index(i) => t + brack(i as int) } } }
pub proof fn chain_next(c: Seq<Key>, n: int) requires 0 <= n < c.len() ensures chain(c, n + 1) == ({ let t = chain(c, n); match c[n] { Key::Str(s) => (if t.len() > 0 { dot(t) } else { t }) + s.b@, Key::Index(i) => t + brack(i as int) } }) { reveal_with_fuel(chain, 2); }
//@fn Parser::get_keychain_key
  ensures r.0.b@ == chain(keychain@, keychain@.len() as int), r.1.b@ == (if keychain@.len() > 1 { chain(keychain@, keychain@.len() - 1) } else { seq![] })
//@start
  proof { reveal_with_fuel(chain, 1); }
//@inv 0
  key.b@ == chain(keychain@, __n0 as int), parent_key.b@ == (if keychain@.len() > 1 && __n0 >= keychain@.len() - 1 { chain(keychain@, keychain@.len() - 1) } else { seq![] }),
//@body 0
  proof { chain_next(keychain@, __n0 - 1); }
//@endfn
/// one name of a header that isn't its last: whether all is well so far, and the key so far
pub open spec fn mid(m: Map<Txt, HashValue>, s: (bool, Txt), n: Txt) -> (bool, Txt) { if n == rootk() { s } else { let k = s.1 + n; (s.0 && !has_value(m, k), dot(latest(m, k))) } }
#[verifier::opaque] pub open spec fn mids(m: Map<Txt, HashValue>, ns: Seq<Str>, a: int, b: int, s: (bool, Txt)) -> (bool, Txt) decreases b - a { if b <= a { s } else { mid(m, mids(m, ns, a, b - 1, s), ns[b - 1].b@) } }
pub proof fn mids_next(m: Map<Txt, HashValue>, ns: Seq<Str>, a: int, b: int, s: (bool, Txt)) ensures a <= b ==> mids(m, ns, a, b + 1, s) == mid(m, mids(m, ns, a, b, s), ns[b].b@), mids(m, ns, a, a, s) == s, b <= a ==> mids(m, ns, a, b, s) == s { reveal_with_fuel(mids, 2); }
/// a table, or a value, is where an array of tables would be
pub open spec fn taken(m: Map<Txt, HashValue>, k: Txt) -> bool { m.dom().contains(k) && (m[k].value is Some || m[k].subkeys is Keys) }
pub open spec fn last_index(m: Map<Txt, HashValue>, k: Txt, i: usize) -> usize { if m.dom().contains(k) && m[k].subkeys is Count && m[k].subkeys->Count_0 > 0 { (m[k].subkeys->Count_0 - 1) as usize } else { i } }
/// what the headers that the parser is in say: whether the innermost can be opened, its key, the key of its parent, and how many names were used
pub open spec fn opened(m: Map<Txt, HashValue>, t: TableType, s: (bool, Txt, Txt, int), i: usize, last: bool) -> (bool, Txt, Txt, int) {
  let ns = names(tab(t)); let (ok, key) = mids(m, ns, s.3, ns.len() - 1, (s.0, s.1)); let k = key + ns.last().b@;
  match t {
    TableType::Array(_) => { let e = k + brack(last_index(m, k, i) as int); (ok && !taken(m, k), if last { e } else { dot(e) }, if last { k } else { s.2 }, ns.len() as int) }
    TableType::Standard(_) => (ok && !has_value(m, k) && tlen(m, k) is None, k,
      if s.3 <= ns.len() - 2 && ns[ns.len() - 2].b@ != rootk() { key.drop_last() } else if s.1.len() > 0 { s.1.drop_last() } else { s.2 }, s.3),
  }
}
#[verifier::opaque] pub open spec fn headed(m: Map<Txt, HashValue>, ts: Seq<TableType>, ix: Seq<usize>, n: int) -> (bool, Txt, Txt, int) decreases n { if n <= 0 { (true, seq![], rootk(), 0) } else { opened(m, ts[n - 1], headed(m, ts, ix, n - 1), ix[n - 1], n == ix.len()) } }
pub open spec fn head(m: Map<Txt, HashValue>, ts: Seq<TableType>, ix: Seq<usize>) -> (bool, Txt, Txt, int) { headed(m, ts, ix, ix.len() as int) }
pub proof fn headed_next(m: Map<Txt, HashValue>, ts: Seq<TableType>, ix: Seq<usize>, n: int) requires n >= 0 ensures headed(m, ts, ix, n + 1) == opened(m, ts[n], headed(m, ts, ix, n), ix[n], n + 1 == ix.len()), headed(m, ts, ix, 0) == (true, Seq::<u8>::empty(), rootk(), 0int) { reveal_with_fuel(headed, 2); }
//@fn Parser::get_array_table_key isolate
  requires tables@.len() >= tables_index@.len()
  ensures (r.0, r.1.b@, r.2.b@) == ({ let h = head(map@, tables@, tables_index@); (h.0, h.1, h.2) })
//@start
  proof { headed_next(map@, tables@, tables_index@, 0); }
//@inv 0
  tables@.len() >= tables_index@.len(), __e0 == tables_index@.len(), tables_len == __e0, last_table is None, (valid, full_key.b@, parent_key.b@, prev_end as int) == headed(map@, tables@, tables_index@, __n0 as int),
//@body 0
  let ghost h = headed(map@, tables@, tables_index@, i as int); let ghost ns = names(tab(tables@[i as int]));
  proof { headed_next(map@, tables@, tables_index@, i as int); mids_next(map@, ns, h.3, h.3, (h.0, h.1)); mids_next(map@, ns, h.3, ns.len() - 1, (h.0, h.1)); }
//@inv 1
  __a1 == prev_end, __e1 == keys@.len() - 1, keys@ == ns, len == keys@.len(), (valid, full_key.b@) == (if __n1 <= __e1 || __n1 == __a1 { mids(map@, ns, h.3, __n1 as int, (h.0, h.1)) } else { (h.0, h.1) }), h.3 == prev_end,
//@body 1
  proof { mids_next(map@, ns, h.3, j as int, (h.0, h.1)); }
//@inv 2
  __a2 == prev_end, __e2 == keys@.len() - 1, keys@ == ns, (valid, full_key.b@) == mids(map@, ns, h.3, __n2 as int, (h.0, h.1)), h.3 == prev_end,
  parent_key.b@ == (if __n2 > prev_end && __n2 == keys@.len() - 1 && ns[ns.len() - 2].b@ != rootk() { full_key.b@.drop_last() } else if h.1.len() > 0 { h.1.drop_last() } else { h.2 }),
//@body 2
  proof { mids_next(map@, ns, h.3, j as int, (h.0, h.1)); }
//@end 2
  proof { if j == keys@.len() - 2 { assert(full_key.b@.drop_last() =~= parent_key.b@); } }
//@endfn
/// the text before the key of a value: that of its table
pub open spec fn within_table(t: Txt) -> Txt { if t.len() > 0 { dot(t) } else { t } }
/// the keys of what leads to a value, and of its parent
pub open spec fn full(table: Txt, c: Seq<Key>) -> Txt { within_table(table) + chain(c, c.len() as int) }
pub open spec fn parent(table: Txt, c: Seq<Key>) -> Txt { let p = if c.len() > 1 { chain(c, c.len() - 1) } else { seq![] }; (if p.len() > 0 { within_table(table) } else { table }) + p }
//@fn Parser::get_full_key
  requires tables@.len() >= tables_index@.len()
  ensures ({ let h = head(map@, tables@, tables_index@); r.0 == h.0 && r.1.b@ == full(h.1, keychain@) && r.2.b@ == parent(h.1, keychain@) })
//@endfn
/// a part of the way to the value has a value of its own
pub open spec fn inside_value(m: Map<Txt, HashValue>, pre: Txt, c: Seq<Key>) -> bool { exists|i: int| 1 <= i < c.len() && has_value(m, pre + #[trigger] chain(c, i)) }
/// keys are not empty
pub open spec fn chain_ok(c: Seq<Key>) -> bool { forall|i: int| 0 <= i < c.len() ==> ((#[trigger] c[i]) matches Key::Str(s) ==> s.b@.len() > 0) }
pub proof fn chain_some(c: Seq<Key>, n: int) requires chain_ok(c), 0 < n <= c.len() ensures chain(c, n).len() > 0 { chain_next(c, n - 1); assert(c[n - 1] matches Key::Str(s) ==> s.b@.len() > 0); }
pub open spec fn before_chain(k: Txt, c: Seq<Key>) -> Txt { k.take(k.len() - chain(c, c.len() as int).len()) }
pub proof fn before(t: Txt, c: Seq<Key>) ensures before_chain(t + chain(c, c.len() as int), c) == t { assert(before_chain(t + chain(c, c.len() as int), c) =~= t); }
//@fn Parser::in_duplicate
  requires chain_ok(keychain@), full_key.b@ == before_chain(full_key.b@, keychain@) + chain(keychain@, keychain@.len() as int)
  ensures r == inside_value(map@, before_chain(full_key.b@, keychain@), keychain@)
//@start
  let ghost pre = before_chain(full_key.b@, keychain@);
//@inv 0
  key.b@ == pre + chain(keychain@, if keychain@.len() == 0 { 0int } else { __n0 as int }), forall|i: int| __n0 <= i < keychain@.len() && i >= 1 ==> !has_value(map@, pre + #[trigger] chain(keychain@, i)),
//@body 0
  let __l = key.len();
  proof { chain_next(keychain@, i as int); chain_some(keychain@, i as int); assert(key.b@.take((pre + chain(keychain@, i as int)).len() as int) =~= pre + chain(keychain@, i as int)); }
//@endfn
/// nothing that was there is gone
pub open spec fn grown(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>) -> bool { forall|k: Txt| #[trigger] m.dom().contains(k) ==> n.dom().contains(k) }
/// tables hold keys, and an array of tables is not empty
pub open spec fn sane(m: Map<Txt, HashValue>) -> bool { forall|k: Txt| #[trigger] m.dom().contains(k) ==> (m[k].value is Some && m[k].value->0 == TOMLValue::Table ==> m[k].subkeys is Keys) && (m[k].value is None && m[k].subkeys is Count ==> m[k].subkeys->Count_0 > 0) }
/// only tables were added, where nothing was; what was there is as it was, but for the names of new tables in it
pub open spec fn sprout(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>) -> bool {
  forall|k: Txt| #[trigger] n.dom().contains(k) ==> (n[k].value is None && n[k].subkeys is Keys) || (m.dom().contains(k) && n[k].value == m[k].value && (n[k].subkeys == m[k].subkeys || (n[k].subkeys is Keys && m[k].subkeys is Keys)))
}
//@fn Parser::add_implicit_tables mut=map,tables
  requires old(tables)@.len() >= tables_index@.len(), old(tables)@.len() > 0 ==> tab(old(tables)@.last()).keys@.len() > 0
  ensures final(tables)@ == old(tables)@, grown(old(map)@, final(map)@), fine(old(map)@) ==> fine(final(map)@), sane(old(map)@) ==> sane(final(map)@), sprout(old(map)@, final(map)@)
//@inv 0
  grown(old(map)@, map@), fine(old(map)@) ==> fine(map@), sane(old(map)@) ==> sane(map@), sprout(old(map)@, map@),
//@endfn
/// the key that a value gets, and that of its parent
pub open spec fn place(p: Parser) -> (Txt, Txt) {
  match p.last_table {
    None => (chain(p.keychain@, p.keychain@.len() as int), if p.keychain@.len() > 1 && chain(p.keychain@, p.keychain@.len() - 1).len() > 0 { chain(p.keychain@, p.keychain@.len() - 1) } else { rootk() }),
    Some(t) => { let h = head(p.map@, if t is Standard { p.last_array_tables@.push(t) } else { p.last_array_tables@ }, p.last_array_tables_index@); (full(h.1, p.keychain@), parent(h.1, p.keychain@)) }
  }
}
/// the value is there, no other value changed
pub open spec fn put_value(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, k: Txt, pk: Txt, v: TOMLValue) -> bool {
  &&& n.dom() =~= m.dom().insert(k).insert(pk) && n[k].value == Some(v)
  &&& forall|q: Txt| q != k && #[trigger] m.dom().contains(q) ==> n[q].value == m[q].value && (q != pk ==> n[q] == m[q])
  &&& !m.dom().contains(pk) && pk != k ==> n[pk].value is None
}
/// the value has the children it had, or none
pub open spec fn put_own(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, k: Txt, v: TOMLValue) -> bool {
  if m.dom().contains(k) { n[k].subkeys == m[k].subkeys } else if v is InlineTable { n[k].subkeys is Keys && n[k].subkeys->Keys_0@.len() == 0 } else { n[k].subkeys == Children::Count(0) }
}
/// the parent has one child more
pub open spec fn put_child(m: Map<Txt, HashValue>, n: Map<Txt, HashValue>, pk: Txt, key: Key) -> bool {
  if m.dom().contains(pk) {
    match m[pk].subkeys {
      Children::Count(c) => n[pk].subkeys is Count && n[pk].subkeys->Count_0 == c + 1,
      Children::Keys(ks) => n[pk].subkeys is Keys && n[pk].subkeys->Keys_0@ == (match key { Key::Str(s) => if occurs(ks@, s.b@) { ks@ } else { ks@.push(s) }, Key::Index(_) => ks@ }),
    }
  } else { match key { Key::Str(s) => n[pk].subkeys is Keys && n[pk].subkeys->Keys_0@ == seq![s], Key::Index(_) => n[pk].subkeys == Children::Count(1) } }
}
/// nothing but the map and the errors is changed
pub open spec fn kept(p: Parser, q: Parser) -> bool {
  &&& q.root == p.root && q.line_count == p.line_count && q.leftover == p.leftover && q.last_array_tables@ =~= p.last_array_tables@ && q.last_array_tables_index@ == p.last_array_tables_index@
  &&& q.last_table == p.last_table && q.array_error == p.array_error && q.mixed_array == p.mixed_array && q.failure == p.failure && q.keychain == p.keychain && q.last_array_type == p.last_array_type
}
/// the key has been given to a value before
pub open spec fn again(m: Map<Txt, HashValue>, k: Txt, v: TOMLValue) -> bool { m.dom().contains(k) && (m[k].value is Some || !container(v)) }
pub open spec fn way(p: Parser) -> bool { p.keychain@.len() > 0 && chain_ok(p.keychain@) && (p.last_table is Some ==> p.last_array_tables@.len() + (if p.last_table->0 is Standard { 1int } else { 0int }) >= p.last_array_tables_index@.len()) }
pub open spec fn inside(p: Parser) -> bool { inside_value(p.map@, before_chain(place(p).0, p.keychain@), p.keychain@) }
/// the value is in the map, or reported, or (inside of a value that was reported) neither
pub open spec fn inserted(p: Parser, q: Parser, v: TOMLValue) -> bool {
  let (k, pk) = place(p);
  if inside(p) { q.map@ == p.map@ && q.errors@ == p.errors@ }
  else if again(p.map@, k, v) { q.map@ == p.map@ && exists|x: Value| means(v, x) && q.errors@ == #[trigger] p.errors@.push(ParseError::DuplicateKey(mk(k), p.line_count, 0, x)) }
  else { q.errors@ == p.errors@ && put_value(p.map@, q.map@, k, pk, v) && (k != pk ==> put_own(p.map@, q.map@, k, v) && put_child(p.map@, q.map@, pk, p.keychain@.last())) }
}
//@fn Parser::insert_keyval_into_map sums isolate
  requires way(*old(self)), writable(val)
  ensures kept(*old(self), *final(self)), inserted(*old(self), *final(self), val),
    inside(*old(self)) ==> final(self).map@ == old(self).map@ && final(self).errors@ == old(self).errors@,
    !inside(*old(self)) && again(old(self).map@, place(*old(self)).0, val) ==> final(self).map@ == old(self).map@ && exists|v: Value| means(val, v) && final(self).errors@ == #[trigger] old(self).errors@.push(ParseError::DuplicateKey(mk(place(*old(self)).0), old(self).line_count, 0, v)),
    !inside(*old(self)) && !again(old(self).map@, place(*old(self)).0, val) ==> final(self).errors@ == old(self).errors@ && put_value(old(self).map@, final(self).map@, place(*old(self)).0, place(*old(self)).1, val),
    !inside(*old(self)) && !again(old(self).map@, place(*old(self)).0, val) && place(*old(self)).0 != place(*old(self)).1 ==> put_own(old(self).map@, final(self).map@, place(*old(self)).0, val),
    !inside(*old(self)) && !again(old(self).map@, place(*old(self)).0, val) && place(*old(self)).0 != place(*old(self)).1 ==> put_child(old(self).map@, final(self).map@, place(*old(self)).1, old(self).keychain@.last())
//@attr #[verifier::rlimit(150)]
//@start
  proof { reveal_with_fuel(writable, 2); reveal_with_fuel(means, 2); if self.last_table is Some { let h = head(self.map@, if self.last_table->0 is Standard { self.last_array_tables@.push(self.last_table->0) } else { self.last_array_tables@ }, self.last_array_tables_index@); before(within_table(h.1), self.keychain@); } else { before(seq![], self.keychain@); } }
//@endfn
