//@types Children
//@props C09
/// base, dot, child; the child alone for an empty base
pub open spec fn joined(base: Txt, child: Txt) -> Txt { if base.len() == 0 { child } else { base + (seq![46u8] + child) } }
/// base[index]
pub open spec fn indexed(base: Txt, i: int) -> Txt { base + (seq![91u8] + (dec(i) + seq![93u8])) }
//@fn Children::combine_keys
  ensures r.b@ == joined(base_key.b@, child_key.b@)
//@endfn
//@fn Children::combine_keys_index
  ensures r.b@ == indexed(base_key.b@, child_key as int)
//@endfn
/// exactly one key per child, in order
//@fn Children::combine_child_keys ty=all_keys:Vec<Str>
  ensures match *self {
    Children::Count(n) => r@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).b@ == indexed(base_key.b@, i),
    Children::Keys(k) => r@.len() == k@.len() && forall|i: int| 0 <= i < k@.len() ==> (#[trigger] r@[i]).b@ == joined(base_key.b@, k@[i].b@),
  }
//@inv 0
  all_keys@.len() == __n0, forall|j: int| 0 <= j < __n0 ==> (#[trigger] all_keys@[j]).b@ == indexed(base_key.b@, j),
//@inv 1
  all_keys@.len() == __n1, forall|j: int| 0 <= j < __n1 ==> (#[trigger] all_keys@[j]).b@ == joined(base_key.b@, hs_rc@[j].b@),
//@endfn
