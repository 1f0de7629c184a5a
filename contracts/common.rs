#![allow(unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, non_snake_case, non_camel_case_types, unused_braces, unreachable_code, unused_imports, path_statements, unused_labels)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
verus!{
// ---------------------------------------------------------------------------
// values of library types.  The executable bodies are never run.
pub struct CVec<T> { pub g: Ghost<Seq<T>> }
impl<T> Clone for CVec<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<T> Copy for CVec<T> {}
impl<T> CVec<T> { pub open spec fn view(self) -> Seq<T> { self.g@ } }
pub open spec fn mk<T>(s: Seq<T>) -> CVec<T> { CVec { g: Ghost(s) } }
pub struct CMap<K, V> { pub g: Ghost<Map<K, V>> }
impl<K, V> Clone for CMap<K, V> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<K, V> Copy for CMap<K, V> {}
impl<K, V> CMap<K, V> { pub open spec fn view(self) -> Map<K, V> { self.g@ } }
pub struct CSet<K> { pub g: Ghost<Set<K>> }
impl<K> Clone for CSet<K> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<K> Copy for CSet<K> {}
impl<K> CSet<K> { pub open spec fn view(self) -> Set<K> { self.g@ } }
pub struct SPtr<T> { pub g: Ghost<(bool, T)> }
impl<T> Clone for SPtr<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<T> Copy for SPtr<T> {}
impl<T> SPtr<T> { pub open spec fn is_null(self) -> bool { self.g@.0 } pub open spec fn view(self) -> T { self.g@.1 } }
#[verifier::external_body]
pub fn sptr_null<T>() -> (r: SPtr<T>) ensures r.is_null() { unimplemented!() }
#[verifier::external_body]
pub fn sptr_new<T>(x: T) -> (r: SPtr<T>) ensures !r.is_null(), r@ == x { unimplemented!() }
#[verifier::external_body]
pub fn sptr_get<T: Copy>(p: SPtr<T>) -> (r: T) requires !p.is_null() ensures r == p@ { unimplemented!() }
#[verifier::external_body]
pub fn sptr_set<T: Copy>(p: SPtr<T>, x: T) -> (r: SPtr<T>) requires !p.is_null() ensures r@ == x, !r.is_null() { unimplemented!() }
#[verifier::external_body]
pub fn sptr_is_null<T: Copy>(p: SPtr<T>) -> (r: bool) ensures r == p.is_null() { unimplemented!() }
pub struct MapIt<K> { pub g: Ghost<(bool, K)> }
impl<K> Clone for MapIt<K> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<K> Copy for MapIt<K> {}
impl<K> MapIt<K> { pub open spec fn present(self) -> bool { self.g@.0 } pub open spec fn key(self) -> K { self.g@.1 } }

#[verifier::external_body]
pub fn arb<T>() -> T { unimplemented!() }
#[verifier::external_body]
pub fn cpp_throw() requires false { unimplemented!() }
pub fn it_inc(a: u64) -> (r: u64) requires a < 0xffff_ffff_ffff_ffff ensures r == a + 1 { a + 1 }
#[verifier::external_body]
pub fn it_add(a: u64, b: i64) -> (r: u64) requires 0 <= a + b <= 0xffff_ffff_ffff_ffff ensures r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn it_sub(a: u64, b: i64) -> (r: u64) requires 0 <= a - b <= 0xffff_ffff_ffff_ffff ensures r == a - b { unimplemented!() }

// std::vector, std::deque, std::string.  Sizes are below 2^62.
#[verifier::external_body]
pub fn vec_len<T>(v: CVec<T>) -> (r: u64) ensures r as int == v@.len(), v@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn vec_at<T: Copy>(v: CVec<T>, i: u64) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vec_last_ix<T>(v: CVec<T>) -> (r: u64) requires v@.len() > 0 ensures r == v@.len() - 1 { unimplemented!() }
#[verifier::external_body]
pub fn vec_rix<T>(v: CVec<T>, i: u64) -> (r: u64) requires i < v@.len() ensures r == v@.len() - 1 - i { unimplemented!() }
#[verifier::external_body]
pub fn vec_set<T: Copy>(v: CVec<T>, i: u64, x: T) -> (r: CVec<T>) requires i < v@.len() ensures r@ == v@.update(i as int, x), v@[i as int] == x ==> r == v { unimplemented!() }
pub fn vec_push<T>(v: CVec<T>, x: T) -> (r: CVec<T>) ensures r@ == v@.push(x) { CVec { g: Ghost(v@.push(x)) } }
pub fn vec_push_front<T>(v: CVec<T>, x: T) -> (r: CVec<T>) ensures r@ == seq![x] + v@ { CVec { g: Ghost(seq![x] + v@) } }
pub fn vec_pop_back<T>(v: CVec<T>) -> (r: CVec<T>) requires v@.len() > 0 ensures r@ == v@.drop_last() { CVec { g: Ghost(v@.drop_last()) } }
pub fn vec_pop_front<T>(v: CVec<T>) -> (r: CVec<T>) requires v@.len() > 0 ensures r@ == v@.skip(1) { CVec { g: Ghost(v@.skip(1)) } }
pub fn str_lit(s: Ghost<Seq<u8>>) -> (r: CVec<u8>) ensures r@ == s@ { CVec { g: s } }
pub fn vec_new<T>() -> (r: CVec<T>) ensures r@ == Seq::<T>::empty() { CVec { g: Ghost(Seq::empty()) } }
pub fn vec_fill<T: Copy>(n: u64, x: T) -> (r: CVec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { CVec { g: Ghost(Seq::new(n as nat, |i: int| x)) } }
pub fn vec_resize<T: Copy>(v: CVec<T>, n: u64, x: T) -> (r: CVec<T>) ensures r@ == Seq::new(n as nat, |i: int| if i < v@.len() { v@[i] } else { x }) { CVec { g: Ghost(Seq::new(n as nat, |i: int| if i < v@.len() { v@[i] } else { x })) } }
#[verifier::external_body]
pub fn vec_eq<T>(a: CVec<T>, b: CVec<T>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn val_eq<T>(a: T, b: T) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body]
pub fn str_cat(a: CVec<u8>, b: CVec<u8>) -> (r: CVec<u8>) ensures r@ == a@ + b@ { unimplemented!() }
// std::map
pub fn map_new<K, V>() -> (r: CMap<K, V>) ensures r@ == Map::<K, V>::empty() { CMap { g: Ghost(Map::empty()) } }
#[verifier::external_body]
pub fn map_at<K, V: Copy>(m: CMap<K, V>, k: K) -> (r: V) requires m@.dom().contains(k) ensures r == m@[k] { unimplemented!() }
#[verifier::external_body]
pub fn map_has<K, V>(m: CMap<K, V>, k: K) -> (r: bool) ensures r == m@.dom().contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_is_empty<K, V>(m: CMap<K, V>) -> (r: bool) ensures r == (m@.dom() =~= Set::<K>::empty()), !r ==> exists|k: K| m@.dom().contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_size<K, V>(m: CMap<K, V>) -> (r: u64) ensures r == m@.dom().len() { unimplemented!() }
#[verifier::external_body]
pub fn map_put<K, V>(m: CMap<K, V>, k: K, v: V) -> (r: CMap<K, V>) ensures r@ == m@.insert(k, v), m@.dom().contains(k) && m@[k] == v ==> r == m { unimplemented!() }
#[verifier::external_body]
pub fn map_touch<K, V>(m: CMap<K, V>, k: K, v: V) -> (r: CMap<K, V>) ensures r@ == (if m@.dom().contains(k) { m@ } else { m@.insert(k, v) }), m@.dom().contains(k) ==> r == m { unimplemented!() }
pub fn map_remove<K, V>(m: CMap<K, V>, k: K) -> (r: CMap<K, V>) ensures r@ == m@.remove(k) { CMap { g: Ghost(m@.remove(k)) } }
pub fn map_remove_it<K, V>(m: CMap<K, V>, i: MapIt<K>) -> (r: CMap<K, V>) requires i.present(), m@.dom().contains(i.key()) ensures r@ == m@.remove(i.key()) { CMap { g: Ghost(m@.remove(i.key())) } }
#[verifier::external_body]
pub fn map_find<K, V>(m: CMap<K, V>, k: K) -> (r: MapIt<K>) ensures r.present() == m@.dom().contains(k), r.present() ==> r.key() == k { unimplemented!() }
#[verifier::external_body]
pub fn mapit_end<K>() -> (r: MapIt<K>) ensures !r.present() { unimplemented!() }
#[verifier::external_body]
pub fn mapit_eq<K>(a: MapIt<K>, b: MapIt<K>) -> (r: bool) ensures r == (a.present() == b.present() && (a.present() ==> a.key() == b.key())) { unimplemented!() }
#[verifier::external_body]
pub fn mapit_key<K: Copy>(a: MapIt<K>) -> (r: K) requires a.present() ensures r == a.key() { unimplemented!() }
#[verifier::external_body]
pub fn map_begin<K, V>(m: CMap<K, V>) -> (r: MapIt<K>) ensures r.present() == !(m@.dom() =~= Set::<K>::empty()), r.present() ==> m@.dom().contains(r.key()) { unimplemented!() }
#[verifier::external_body]
pub fn set_begin<K>(m: CSet<K>) -> (r: MapIt<K>) ensures r.present() == !(m@ =~= Set::<K>::empty()), r.present() ==> m@.contains(r.key()) { unimplemented!() }
// the keys in iteration order (increasing)
pub uninterp spec fn key_less<K>(a: K, b: K) -> bool;
pub open spec fn is_enum_of<K>(s: Seq<K>, d: Set<K>) -> bool {
  &&& forall|k: K| #[trigger] d.contains(k) <==> s.contains(k)
  &&& forall|i: int| 0 <= i < s.len() ==> d.contains(#[trigger] s[i])
  &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i] != s[j]
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] key_less(s[i], s[j])
}
pub uninterp spec fn keys_of<K>(d: Set<K>) -> Seq<K>;
#[verifier::external_body]
pub fn map_keys<K, V>(m: CMap<K, V>) -> (r: CVec<K>) ensures is_enum_of(r@, m@.dom()), r@ == keys_of(m@.dom()), r@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn set_elems<K>(m: CSet<K>) -> (r: CVec<K>) ensures is_enum_of(r@, m@), r@ == keys_of(m@), r@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
pub broadcast axiom fn axiom_key_less_u64(a: u64, b: u64) ensures #[trigger] key_less(a, b) == (a < b);
pub broadcast axiom fn axiom_key_less_u32(a: u32, b: u32) ensures #[trigger] key_less(a, b) == (a < b);
// std::set
pub fn set_new<K>() -> (r: CSet<K>) ensures r@ == Set::<K>::empty() { CSet { g: Ghost(Set::empty()) } }
#[verifier::external_body]
pub fn set_has<K>(m: CSet<K>, k: K) -> (r: bool) ensures r == m@.contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn set_is_empty<K>(m: CSet<K>) -> (r: bool) ensures r == (m@ =~= Set::<K>::empty()), !r ==> exists|k: K| m@.contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn set_size<K>(m: CSet<K>) -> (r: u64) ensures r == m@.len() { unimplemented!() }
pub fn set_insert<K>(m: CSet<K>, k: K) -> (r: CSet<K>) ensures r@ == m@.insert(k) { CSet { g: Ghost(m@.insert(k)) } }
pub fn set_remove<K>(m: CSet<K>, k: K) -> (r: CSet<K>) ensures r@ == m@.remove(k) { CSet { g: Ghost(m@.remove(k)) } }
pub fn set_remove_it<K>(m: CSet<K>, i: MapIt<K>) -> (r: CSet<K>) requires i.present(), m@.contains(i.key()) ensures r@ == m@.remove(i.key()) { CSet { g: Ghost(m@.remove(i.key())) } }
#[verifier::external_body]
pub fn set_find<K>(m: CSet<K>, k: K) -> (r: MapIt<K>) ensures r.present() == m@.contains(k), r.present() ==> r.key() == k { unimplemented!() }
#[verifier::external_body]
pub fn set_from<K>(s: CVec<K>) -> (r: CSet<K>) ensures forall|k: K| #[trigger] r@.contains(k) <==> s@.contains(k) { unimplemented!() }
// lexicographic order
pub open spec fn seq_lt(a: Seq<int>, b: Seq<int>) -> bool decreases a.len() { if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { seq_lt(a.skip(1), b.skip(1)) } }
pub open spec fn ints_u32(a: Seq<u32>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] as int) }
pub open spec fn ints_i32(a: Seq<i32>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] as int) }
#[verifier::external_body]
pub fn vec_lt_u32(a: CVec<u32>, b: CVec<u32>) -> (r: bool) ensures r == seq_lt(ints_u32(a@), ints_u32(b@)) { unimplemented!() }
#[verifier::external_body]
pub fn vec_lt_i32(a: CVec<i32>, b: CVec<i32>) -> (r: bool) ensures r == seq_lt(ints_i32(a@), ints_i32(b@)) { unimplemented!() }
// std::mutex: a lock that is held by the running thread
pub struct CMutex { pub g: Ghost<(bool, int)> }
impl Clone for CMutex { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CMutex {}
// how often the lock has been taken: operations that take it once are atomic
impl CMutex { pub open spec fn held(self) -> bool { self.g@.0 } pub open spec fn times(self) -> int { self.g@.1 } }
#[verifier::external_body]
pub fn mutex_lock(m: CMutex) -> (r: CMutex) requires !m.held() ensures r.held(), r.times() == m.times() + 1 { unimplemented!() }
#[verifier::external_body]
pub fn mutex_unlock(m: CMutex) -> (r: CMutex) requires m.held() ensures !r.held(), r.times() == m.times() { unimplemented!() }
#[verifier::external_body]
pub fn mutex_guard(m: CMutex) requires m.held() { unimplemented!() }
// std::sort
pub uninterp spec fn val_le<T>(a: T, b: T) -> bool;
pub axiom fn axiom_val_le_u32(a: u32, b: u32) ensures val_le(a, b) == (a <= b);
#[verifier::external_body]
pub fn vec_sort<T>(v: CVec<T>) -> (r: CVec<T>) ensures r@.to_multiset() == v@.to_multiset(), r@.len() == v@.len(), forall|i: int, j: int| 0 <= i < j < r@.len() ==> #[trigger] val_le(r@[i], r@[j]) { unimplemented!() }
#[verifier::external_body]
pub fn vec_sort_desc<T>(v: CVec<T>) -> (r: CVec<T>) ensures r@.to_multiset() == v@.to_multiset(), r@.len() == v@.len(), forall|i: int, j: int| 0 <= i < j < r@.len() ==> #[trigger] val_le(r@[j], r@[i]) { unimplemented!() }
// double, restricted to integers that are represented exactly
pub struct CDbl { pub g: Ghost<int> }
impl Clone for CDbl { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CDbl {}
impl CDbl { pub open spec fn view(self) -> int { self.g@ } }
pub open spec fn dbl_exact(x: int) -> bool { -0x20_0000_0000_0000 <= x <= 0x20_0000_0000_0000 }
#[verifier::external_body]
pub fn dbl_add(a: CDbl, b: CDbl) -> (r: CDbl) requires dbl_exact(a@ + b@) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_sub(a: CDbl, b: CDbl) -> (r: CDbl) requires dbl_exact(a@ - b@) ensures r@ == a@ - b@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_mul(a: CDbl, b: CDbl) -> (r: CDbl) requires dbl_exact(a@ * b@) ensures r@ == a@ * b@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_pow(a: CDbl, b: CDbl) -> (r: CDbl) requires b@ >= 0, dbl_exact(pow(a@, b@ as nat)) ensures r@ == pow(a@, b@ as nat) { unimplemented!() }

pub fn u32_add(a: u32, b: u32) -> (r: u32) ensures a + b < 0x1_0000_0000 ==> r == a + b, a + b >= 0x1_0000_0000 ==> r == a + b - 0x1_0000_0000 { a.wrapping_add(b) }
pub fn u32_sub(a: u32, b: u32) -> (r: u32) ensures a >= b ==> r == a - b, a < b ==> r == a - b + 0x1_0000_0000 { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn u32_mul(a: u32, b: u32) -> (r: u32) ensures a * b < 0x1_0000_0000 ==> r == a * b, r == (a * b) % 0x1_0000_0000 { a.wrapping_mul(b) }
pub fn u32_div(a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a / b { a / b }
pub fn u32_rem(a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a % b { a % b }
pub fn u32_and(a: u32, b: u32) -> (r: u32) ensures r == a & b, b == 1 ==> r == a % 2 { proof { assert(a & 1 == a % 2) by (bit_vector); } a & b }
pub fn u32_or(a: u32, b: u32) -> (r: u32) ensures r == a | b { a | b }
pub fn u32_xor(a: u32, b: u32) -> (r: u32) ensures r == a ^ b { a ^ b }
pub fn u32_min(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn u32_max(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
#[verifier::external_body]
pub fn u32_shr(a: u32, b: u32) -> (r: u32) requires b < 32 ensures b == 0 ==> r == a, b == 1 ==> r == a / 2, b == 2 ==> r == a / 4, r == a >> b { a >> b }
#[verifier::external_body]
pub fn u32_shl(a: u32, b: u32) -> (r: u32) requires b < 32 ensures b == 0 ==> r == a, b == 1 && 2 * a < 0x1_0000_0000 ==> r == 2 * a, b == 2 && 4 * a < 0x1_0000_0000 ==> r == 4 * a { a << b }


pub fn u64_add(a: u64, b: u64) -> (r: u64) ensures a + b < 0x1_0000_0000_0000_0000 ==> r == a + b, a + b >= 0x1_0000_0000_0000_0000 ==> r == a + b - 0x1_0000_0000_0000_0000 { a.wrapping_add(b) }
pub fn u64_sub(a: u64, b: u64) -> (r: u64) ensures a >= b ==> r == a - b, a < b ==> r == a - b + 0x1_0000_0000_0000_0000 { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn u64_mul(a: u64, b: u64) -> (r: u64) ensures a * b < 0x1_0000_0000_0000_0000 ==> r == a * b, r == (a * b) % 0x1_0000_0000_0000_0000 { a.wrapping_mul(b) }
pub fn u64_div(a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == a / b { a / b }
pub fn u64_rem(a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == a % b { a % b }
pub fn u64_and(a: u64, b: u64) -> (r: u64) ensures r == a & b, b == 1 ==> r == a % 2 { proof { assert(a & 1 == a % 2) by (bit_vector); } a & b }
pub fn u64_or(a: u64, b: u64) -> (r: u64) ensures r == a | b { a | b }
pub fn u64_xor(a: u64, b: u64) -> (r: u64) ensures r == a ^ b { a ^ b }
pub fn u64_min(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn u64_max(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
#[verifier::external_body]
pub fn u64_shr(a: u64, b: u32) -> (r: u64) requires b < 64 ensures b == 0 ==> r == a, b == 1 ==> r == a / 2, b == 2 ==> r == a / 4, r == a >> b { a >> b }
#[verifier::external_body]
pub fn u64_shl(a: u64, b: u32) -> (r: u64) requires b < 64 ensures b == 0 ==> r == a, b == 1 && 2 * a < 0x1_0000_0000_0000_0000 ==> r == 2 * a, b == 2 && 4 * a < 0x1_0000_0000_0000_0000 ==> r == 4 * a { a << b }


pub fn i32_add(a: i32, b: i32) -> (r: i32) requires -2147483648 <= a + b <= 2147483647 ensures r == a + b { a + b }
pub fn i32_sub(a: i32, b: i32) -> (r: i32) requires -2147483648 <= a - b <= 2147483647 ensures r == a - b { a - b }
pub fn i32_mul(a: i32, b: i32) -> (r: i32) requires -2147483648 <= a * b <= 2147483647 ensures r == a * b { a * b }
pub fn i32_neg(a: i32) -> (r: i32) requires a > -2147483648 ensures r == -a { -a }
pub open spec fn i32_tdiv(a: int, b: int) -> int { if a >= 0 && b > 0 { a / b } else if a < 0 && b > 0 { -((-a) / b) } else if a >= 0 { -(a / (-b)) } else { (-a) / (-b) } }
#[verifier::external_body]
pub fn i32_div(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == -2147483648 && b == -1) ensures r == i32_tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a / b { a / b }
#[verifier::external_body]
pub fn i32_rem(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == -2147483648 && b == -1) ensures r == a - b * i32_tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a % b { a % b }
#[verifier::external_body]
pub fn i32_and(a: i32, b: i32) -> (r: i32) ensures r == a & b, b == 1 ==> r == a % 2 { a & b }
#[verifier::external_body]
pub fn i32_shr(a: i32, b: u32) -> (r: i32) requires b < 32, a >= 0 ensures b == 0 ==> r == a, b == 1 ==> r == a / 2, b == 2 ==> r == a / 4 { a >> b }
pub fn i32_min(a: i32, b: i32) -> (r: i32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn i32_max(a: i32, b: i32) -> (r: i32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }


pub fn i64_add(a: i64, b: i64) -> (r: i64) requires -9223372036854775808 <= a + b <= 9223372036854775807 ensures r == a + b { a + b }
pub fn i64_sub(a: i64, b: i64) -> (r: i64) requires -9223372036854775808 <= a - b <= 9223372036854775807 ensures r == a - b { a - b }
pub fn i64_mul(a: i64, b: i64) -> (r: i64) requires -9223372036854775808 <= a * b <= 9223372036854775807 ensures r == a * b { a * b }
pub fn i64_neg(a: i64) -> (r: i64) requires a > -9223372036854775808 ensures r == -a { -a }
pub open spec fn i64_tdiv(a: int, b: int) -> int { if a >= 0 && b > 0 { a / b } else if a < 0 && b > 0 { -((-a) / b) } else if a >= 0 { -(a / (-b)) } else { (-a) / (-b) } }
#[verifier::external_body]
pub fn i64_div(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == -9223372036854775808 && b == -1) ensures r == i64_tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a / b { a / b }
#[verifier::external_body]
pub fn i64_rem(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == -9223372036854775808 && b == -1) ensures r == a - b * i64_tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a % b { a % b }
#[verifier::external_body]
pub fn i64_and(a: i64, b: i64) -> (r: i64) ensures r == a & b, b == 1 ==> r == a % 2 { a & b }
#[verifier::external_body]
pub fn i64_shr(a: i64, b: u32) -> (r: i64) requires b < 64, a >= 0 ensures b == 0 ==> r == a, b == 1 ==> r == a / 2, b == 2 ==> r == a / 4 { a >> b }
pub fn i64_min(a: i64, b: i64) -> (r: i64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn i64_max(a: i64, b: i64) -> (r: i64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }

#[verifier::external_body]
pub fn u8_to_i8(a: u8) -> (r: i8) ensures -128 <= a <= 127 ==> r == a, (r - a) % 0x100 == 0, a > 127 ==> r == a - 0x100 { a as i8 }
#[verifier::external_body]
pub fn u16_to_u8(a: u16) -> (r: u8) ensures 0 <= a <= 255 ==> r == a, (r - a) % 0x100 == 0 { a as u8 }
#[verifier::external_body]
pub fn u16_to_i8(a: u16) -> (r: i8) ensures -128 <= a <= 127 ==> r == a, (r - a) % 0x100 == 0 { a as i8 }
#[verifier::external_body]
pub fn u16_to_i16(a: u16) -> (r: i16) ensures -32768 <= a <= 32767 ==> r == a, (r - a) % 0x10000 == 0, a > 32767 ==> r == a - 0x10000 { a as i16 }
#[verifier::external_body]
pub fn u32_to_u8(a: u32) -> (r: u8) ensures 0 <= a <= 255 ==> r == a, (r - a) % 0x100 == 0 { a as u8 }
#[verifier::external_body]
pub fn u32_to_u16(a: u32) -> (r: u16) ensures 0 <= a <= 65535 ==> r == a, (r - a) % 0x10000 == 0 { a as u16 }
#[verifier::external_body]
pub fn u32_to_i8(a: u32) -> (r: i8) ensures -128 <= a <= 127 ==> r == a, (r - a) % 0x100 == 0 { a as i8 }
#[verifier::external_body]
pub fn u32_to_i16(a: u32) -> (r: i16) ensures -32768 <= a <= 32767 ==> r == a, (r - a) % 0x10000 == 0 { a as i16 }
#[verifier::external_body]
pub fn u32_to_i32(a: u32) -> (r: i32) ensures -2147483648 <= a <= 2147483647 ==> r == a, (r - a) % 0x100000000 == 0, a > 2147483647 ==> r == a - 0x100000000 { a as i32 }
#[verifier::external_body]
pub fn u64_to_u8(a: u64) -> (r: u8) ensures 0 <= a <= 255 ==> r == a, (r - a) % 0x100 == 0 { a as u8 }
#[verifier::external_body]
pub fn u64_to_u16(a: u64) -> (r: u16) ensures 0 <= a <= 65535 ==> r == a, (r - a) % 0x10000 == 0 { a as u16 }
#[verifier::external_body]
pub fn u64_to_u32(a: u64) -> (r: u32) ensures 0 <= a <= 4294967295 ==> r == a, (r - a) % 0x100000000 == 0 { a as u32 }
#[verifier::external_body]
pub fn u64_to_i8(a: u64) -> (r: i8) ensures -128 <= a <= 127 ==> r == a, (r - a) % 0x100 == 0 { a as i8 }
#[verifier::external_body]
pub fn u64_to_i16(a: u64) -> (r: i16) ensures -32768 <= a <= 32767 ==> r == a, (r - a) % 0x10000 == 0 { a as i16 }
#[verifier::external_body]
pub fn u64_to_i32(a: u64) -> (r: i32) ensures -2147483648 <= a <= 2147483647 ==> r == a, (r - a) % 0x100000000 == 0 { a as i32 }
#[verifier::external_body]
pub fn u64_to_i64(a: u64) -> (r: i64) ensures -9223372036854775808 <= a <= 9223372036854775807 ==> r == a, (r - a) % 0x10000000000000000 == 0, a > 9223372036854775807 ==> r == a - 0x10000000000000000 { a as i64 }
#[verifier::external_body]
pub fn i8_to_u8(a: i8) -> (r: u8) ensures 0 <= a <= 255 ==> r == a, (r - a) % 0x100 == 0, -(0x100) <= a < 0 ==> r == a + 0x100 { a as u8 }
#[verifier::external_body]
pub fn i8_to_u16(a: i8) -> (r: u16) ensures 0 <= a <= 65535 ==> r == a, (r - a) % 0x10000 == 0, -(0x10000) <= a < 0 ==> r == a + 0x10000 { a as u16 }
#[verifier::external_body]
pub fn i8_to_u32(a: i8) -> (r: u32) ensures 0 <= a <= 4294967295 ==> r == a, (r - a) % 0x100000000 == 0, -(0x100000000) <= a < 0 ==> r == a + 0x100000000 { a as u32 }
#[verifier::external_body]
pub fn i8_to_u64(a: i8) -> (r: u64) ensures 0 <= a <= 18446744073709551615 ==> r == a, (r - a) % 0x10000000000000000 == 0, -(0x10000000000000000) <= a < 0 ==> r == a + 0x10000000000000000 { a as u64 }
#[verifier::external_body]
pub fn i16_to_u8(a: i16) -> (r: u8) ensures 0 <= a <= 255 ==> r == a, (r - a) % 0x100 == 0, -(0x100) <= a < 0 ==> r == a + 0x100 { a as u8 }
#[verifier::external_body]
pub fn i16_to_u16(a: i16) -> (r: u16) ensures 0 <= a <= 65535 ==> r == a, (r - a) % 0x10000 == 0, -(0x10000) <= a < 0 ==> r == a + 0x10000 { a as u16 }
#[verifier::external_body]
pub fn i16_to_u32(a: i16) -> (r: u32) ensures 0 <= a <= 4294967295 ==> r == a, (r - a) % 0x100000000 == 0, -(0x100000000) <= a < 0 ==> r == a + 0x100000000 { a as u32 }
#[verifier::external_body]
pub fn i16_to_u64(a: i16) -> (r: u64) ensures 0 <= a <= 18446744073709551615 ==> r == a, (r - a) % 0x10000000000000000 == 0, -(0x10000000000000000) <= a < 0 ==> r == a + 0x10000000000000000 { a as u64 }
#[verifier::external_body]
pub fn i16_to_i8(a: i16) -> (r: i8) ensures -128 <= a <= 127 ==> r == a, (r - a) % 0x100 == 0 { a as i8 }
#[verifier::external_body]
pub fn i32_to_u8(a: i32) -> (r: u8) ensures 0 <= a <= 255 ==> r == a, (r - a) % 0x100 == 0, -(0x100) <= a < 0 ==> r == a + 0x100 { a as u8 }
#[verifier::external_body]
pub fn i32_to_u16(a: i32) -> (r: u16) ensures 0 <= a <= 65535 ==> r == a, (r - a) % 0x10000 == 0, -(0x10000) <= a < 0 ==> r == a + 0x10000 { a as u16 }
#[verifier::external_body]
pub fn i32_to_u32(a: i32) -> (r: u32) ensures 0 <= a <= 4294967295 ==> r == a, (r - a) % 0x100000000 == 0, -(0x100000000) <= a < 0 ==> r == a + 0x100000000 { a as u32 }
#[verifier::external_body]
pub fn i32_to_u64(a: i32) -> (r: u64) ensures 0 <= a <= 18446744073709551615 ==> r == a, (r - a) % 0x10000000000000000 == 0, -(0x10000000000000000) <= a < 0 ==> r == a + 0x10000000000000000 { a as u64 }
#[verifier::external_body]
pub fn i32_to_i8(a: i32) -> (r: i8) ensures -128 <= a <= 127 ==> r == a, (r - a) % 0x100 == 0 { a as i8 }
#[verifier::external_body]
pub fn i32_to_i16(a: i32) -> (r: i16) ensures -32768 <= a <= 32767 ==> r == a, (r - a) % 0x10000 == 0 { a as i16 }
#[verifier::external_body]
pub fn i64_to_u8(a: i64) -> (r: u8) ensures 0 <= a <= 255 ==> r == a, (r - a) % 0x100 == 0, -(0x100) <= a < 0 ==> r == a + 0x100 { a as u8 }
#[verifier::external_body]
pub fn i64_to_u16(a: i64) -> (r: u16) ensures 0 <= a <= 65535 ==> r == a, (r - a) % 0x10000 == 0, -(0x10000) <= a < 0 ==> r == a + 0x10000 { a as u16 }
#[verifier::external_body]
pub fn i64_to_u32(a: i64) -> (r: u32) ensures 0 <= a <= 4294967295 ==> r == a, (r - a) % 0x100000000 == 0, -(0x100000000) <= a < 0 ==> r == a + 0x100000000 { a as u32 }
#[verifier::external_body]
pub fn i64_to_u64(a: i64) -> (r: u64) ensures 0 <= a <= 18446744073709551615 ==> r == a, (r - a) % 0x10000000000000000 == 0, -(0x10000000000000000) <= a < 0 ==> r == a + 0x10000000000000000 { a as u64 }
#[verifier::external_body]
pub fn i64_to_i8(a: i64) -> (r: i8) ensures -128 <= a <= 127 ==> r == a, (r - a) % 0x100 == 0 { a as i8 }
#[verifier::external_body]
pub fn i64_to_i16(a: i64) -> (r: i16) ensures -32768 <= a <= 32767 ==> r == a, (r - a) % 0x10000 == 0 { a as i16 }
#[verifier::external_body]
pub fn i64_to_i32(a: i64) -> (r: i32) ensures -2147483648 <= a <= 2147483647 ==> r == a, (r - a) % 0x100000000 == 0 { a as i32 }
pub fn bool_to_u8(a: bool) -> (r: u8) ensures r == if a { 1u8 } else { 0u8 } { if a { 1 } else { 0 } }
pub fn bool_to_u32(a: bool) -> (r: u32) ensures r == if a { 1u32 } else { 0u32 } { if a { 1 } else { 0 } }
pub fn bool_to_u64(a: bool) -> (r: u64) ensures r == if a { 1u64 } else { 0u64 } { if a { 1 } else { 0 } }
pub fn bool_to_i32(a: bool) -> (r: i32) ensures r == if a { 1i32 } else { 0i32 } { if a { 1 } else { 0 } }
pub fn bool_to_i64(a: bool) -> (r: i64) ensures r == if a { 1i64 } else { 0i64 } { if a { 1 } else { 0 } }
#[verifier::external_body]
pub fn dbl_of_i32(a: i32) -> (r: CDbl) requires -0x20_0000_0000_0000 <= a <= 0x20_0000_0000_0000 ensures r@ == a { unimplemented!() }
#[verifier::external_body]
pub fn dbl_to_i32(a: CDbl) -> (r: i32) requires i32::MIN <= a@ <= i32::MAX ensures r == a@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_of_u32(a: u32) -> (r: CDbl) requires -0x20_0000_0000_0000 <= a <= 0x20_0000_0000_0000 ensures r@ == a { unimplemented!() }
#[verifier::external_body]
pub fn dbl_to_u32(a: CDbl) -> (r: u32) requires u32::MIN <= a@ <= u32::MAX ensures r == a@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_of_i64(a: i64) -> (r: CDbl) requires -0x20_0000_0000_0000 <= a <= 0x20_0000_0000_0000 ensures r@ == a { unimplemented!() }
#[verifier::external_body]
pub fn dbl_to_i64(a: CDbl) -> (r: i64) requires i64::MIN <= a@ <= i64::MAX ensures r == a@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_of_u64(a: u64) -> (r: CDbl) requires -0x20_0000_0000_0000 <= a <= 0x20_0000_0000_0000 ensures r@ == a { unimplemented!() }
#[verifier::external_body]
pub fn dbl_to_u64(a: CDbl) -> (r: u64) requires u64::MIN <= a@ <= u64::MAX ensures r == a@ { unimplemented!() }
