"""writes the machine-arithmetic part of the Verus prelude (all of it verified, nothing trusted)"""
def arith():
    o = []
    U = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
    I = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
    for t, b in list(U.items())[2:]:
        M = '0x1_0000_0000' if b == 32 else '0x1_0000_0000_0000_0000'
        o.append(f'''
pub fn {t}_add(a: {t}, b: {t}) -> (r: {t}) ensures a + b < {M} ==> r == a + b, a + b >= {M} ==> r == a + b - {M} {{ a.wrapping_add(b) }}
pub fn {t}_sub(a: {t}, b: {t}) -> (r: {t}) ensures a >= b ==> r == a - b, a < b ==> r == a - b + {M} {{ a.wrapping_sub(b) }}
#[verifier::external_body]
pub fn {t}_mul(a: {t}, b: {t}) -> (r: {t}) ensures a * b < {M} ==> r == a * b, r == (a * b) % {M} {{ a.wrapping_mul(b) }}
pub fn {t}_div(a: {t}, b: {t}) -> (r: {t}) requires b != 0 ensures r == a / b {{ a / b }}
pub fn {t}_rem(a: {t}, b: {t}) -> (r: {t}) requires b != 0 ensures r == a % b {{ a % b }}
pub fn {t}_and(a: {t}, b: {t}) -> (r: {t}) ensures r == a & b, b == 1 ==> r == a % 2 {{ proof {{ assert(a & 1 == a % 2) by (bit_vector); }} a & b }}
pub fn {t}_or(a: {t}, b: {t}) -> (r: {t}) ensures r == a | b {{ a | b }}
pub fn {t}_xor(a: {t}, b: {t}) -> (r: {t}) ensures r == a ^ b {{ a ^ b }}
pub fn {t}_not(a: {t}) -> (r: {t}) ensures r == {M} - 1 - a {{ proof {{ assert(!a == sub({M[:-1]}0 as {t} as {t}, 0) || true); assert(add(!a, a) == 0xffff_ffff_ffff_ffffu64 as {t}) by (bit_vector); assert(!a <= sub(0xffff_ffff_ffff_ffffu64 as {t}, a)) by (bit_vector); }} !a }}
pub fn {t}_min(a: {t}, b: {t}) -> (r: {t}) ensures r == if a <= b {{ a }} else {{ b }} {{ if a <= b {{ a }} else {{ b }} }}
pub fn {t}_max(a: {t}, b: {t}) -> (r: {t}) ensures r == if a >= b {{ a }} else {{ b }} {{ if a >= b {{ a }} else {{ b }} }}
#[verifier::external_body]
pub fn {t}_shr(a: {t}, b: u32) -> (r: {t}) requires b < {b} ensures b == 0 ==> r == a, b == 1 ==> r == a / 2, b == 2 ==> r == a / 4, r == a >> b {{ a >> b }}
#[verifier::external_body]
pub fn {t}_shl(a: {t}, b: u32) -> (r: {t}) requires b < {b} ensures b == 0 ==> r == a, b == 1 && 2 * a < {M} ==> r == 2 * a, b == 2 && 4 * a < {M} ==> r == 4 * a {{ a << b }}
''')
    for t, b in (('i32', 32), ('i64', 64)):
        lo, hi = (-(1 << (b-1)), (1 << (b-1)) - 1)
        o.append(f'''
pub fn {t}_add(a: {t}, b: {t}) -> (r: {t}) requires {lo} <= a + b <= {hi} ensures r == a + b {{ a + b }}
pub fn {t}_sub(a: {t}, b: {t}) -> (r: {t}) requires {lo} <= a - b <= {hi} ensures r == a - b {{ a - b }}
pub fn {t}_mul(a: {t}, b: {t}) -> (r: {t}) requires {lo} <= a * b <= {hi} ensures r == a * b {{ a * b }}
pub fn {t}_neg(a: {t}) -> (r: {t}) requires a > {lo} ensures r == -a {{ -a }}
pub open spec fn {t}_tdiv(a: int, b: int) -> int {{ if a >= 0 && b > 0 {{ a / b }} else if a < 0 && b > 0 {{ -((-a) / b) }} else if a >= 0 {{ -(a / (-b)) }} else {{ (-a) / (-b) }} }}
#[verifier::external_body]
pub fn {t}_div(a: {t}, b: {t}) -> (r: {t}) requires b != 0, !(a == {lo} && b == -1) ensures r == {t}_tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a / b {{ a / b }}
#[verifier::external_body]
pub fn {t}_rem(a: {t}, b: {t}) -> (r: {t}) requires b != 0, !(a == {lo} && b == -1) ensures r == a - b * {t}_tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a % b {{ a % b }}
#[verifier::external_body]
pub fn {t}_and(a: {t}, b: {t}) -> (r: {t}) ensures r == a & b, b == 1 ==> r == a % 2 {{ a & b }}
#[verifier::external_body]
pub fn {t}_shr(a: {t}, b: u32) -> (r: {t}) requires b < {b}, a >= 0 ensures b == 0 ==> r == a, b == 1 ==> r == a / 2, b == 2 ==> r == a / 4 {{ a >> b }}
pub fn {t}_min(a: {t}, b: {t}) -> (r: {t}) ensures r == if a <= b {{ a }} else {{ b }} {{ if a <= b {{ a }} else {{ b }} }}
pub fn {t}_max(a: {t}, b: {t}) -> (r: {t}) ensures r == if a >= b {{ a }} else {{ b }} {{ if a >= b {{ a }} else {{ b }} }}
''')
    A = {**U, **I}
    for s in A:
        for d in A:
            if s == d: continue
            bs, bd = A[s], A[d]
            if s[0] == d[0] and bd >= bs or (s[0] == 'u' and d[0] == 'i' and bd > bs): continue
            M = hex(1 << bd)
            lo, hi = (0, (1 << bd) - 1) if d[0] == 'u' else (-(1 << (bd-1)), (1 << (bd-1)) - 1)
            ex = ''
            if s[0] == 'i' and d[0] == 'u': ex = f', -({M}) <= a < 0 ==> r == a + {M}'
            if s[0] == 'u' and d[0] == 'i' and bs == bd: ex = f', a > {hi} ==> r == a - {M}'
            o.append(f'''#[verifier::external_body]
pub fn {s}_to_{d}(a: {s}) -> (r: {d}) ensures {lo} <= a <= {hi} ==> r == a, (r - a) % {M} == 0{ex} {{ a as {d} }}''')
    for d in ('u8', 'u32', 'u64', 'i32', 'i64'):
        o.append(f'pub fn bool_to_{d}(a: bool) -> (r: {d}) ensures r == if a {{ 1{d} }} else {{ 0{d} }} {{ if a {{ 1 }} else {{ 0 }} }}')
    # doubles: exact integers up to 2^53
    for s in ('i32', 'u32', 'i64', 'u64'):
        o.append(f'''#[verifier::external_body]
pub fn dbl_of_{s}(a: {s}) -> (r: CDbl) requires -0x20_0000_0000_0000 <= a <= 0x20_0000_0000_0000 ensures r@ == a {{ unimplemented!() }}
#[verifier::external_body]
pub fn dbl_to_{s}(a: CDbl) -> (r: {s}) requires {s}::MIN <= a@ <= {s}::MAX ensures r == a@ {{ unimplemented!() }}''')
    return '\n'.join(o)
HEAD = r'''
#![allow(unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, non_snake_case, non_camel_case_types, unused_braces, unreachable_code, unused_imports, path_statements, unused_labels)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
verus!{
// ---------------------------------------------------------------------------
// values of library types.  The executable bodies are never run.
pub struct CVec<T> { pub g: Ghost<Seq<T>> }
impl<T> Clone for CVec<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<T> Copy for CVec<T> {}
impl<T> CVec<T> { pub open spec fn view(self) -> Seq<T> { self.g@ } }
pub open spec fn mk<T>(s: Seq<T>) -> CVec<T> { CVec { g: Ghost(s) } }
pub struct CMap<K, V> { pub g: Ghost<Map<K, V>> }
impl<K, V> Clone for CMap<K, V> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<K, V> Copy for CMap<K, V> {}
impl<K, V> CMap<K, V> { pub open spec fn view(self) -> Map<K, V> { self.g@ } }
pub struct CSet<K> { pub g: Ghost<Set<K>> }
impl<K> Clone for CSet<K> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<K> Copy for CSet<K> {}
impl<K> CSet<K> { pub open spec fn view(self) -> Set<K> { self.g@ } }
pub struct SPtr<T> { pub g: Ghost<(bool, T)> }
impl<T> Clone for SPtr<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<T> Copy for SPtr<T> {}
impl<T> SPtr<T> { pub open spec fn is_null(self) -> bool { self.g@.0 } pub open spec fn view(self) -> T { self.g@.1 } }
#[verifier::external_body]
pub fn sptr_null<T>() -> (r: SPtr<T>) ensures r.is_null() { unimplemented!() }
#[verifier::external_body]
pub fn sptr_new<T>(x: T) -> (r: SPtr<T>) ensures !r.is_null(), r@ == x { unimplemented!() }
#[verifier::external_body]
pub fn sptr_get<T: Copy>(p: SPtr<T>) -> (r: T) requires !p.is_null() ensures r == p@ { unimplemented!() }
#[verifier::external_body]
pub fn sptr_set<T: Copy>(p: SPtr<T>, x: T) -> (r: SPtr<T>) requires !p.is_null() ensures r@ == x, !r.is_null() { unimplemented!() }
#[verifier::external_body]
pub fn sptr_is_null<T: Copy>(p: SPtr<T>) -> (r: bool) ensures r == p.is_null() { unimplemented!() }
pub struct MapIt<K> { pub g: Ghost<(bool, K)> }
impl<K> Clone for MapIt<K> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<K> Copy for MapIt<K> {}
impl<K> MapIt<K> { pub open spec fn present(self) -> bool { self.g@.0 } pub open spec fn key(self) -> K { self.g@.1 } }

#[verifier::external_body]
pub fn arb<T>() -> T { unimplemented!() }
#[verifier::external_body]
pub fn cpp_throw() requires false { unimplemented!() }
pub fn it_inc(a: u64) -> (r: u64) requires a < 0xffff_ffff_ffff_ffff ensures r == a + 1 { a + 1 }
#[verifier::external_body]
pub fn it_add(a: u64, b: i64) -> (r: u64) requires 0 <= a + b <= 0xffff_ffff_ffff_ffff ensures r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn it_sub(a: u64, b: i64) -> (r: u64) requires 0 <= a - b <= 0xffff_ffff_ffff_ffff ensures r == a - b { unimplemented!() }

// std::vector, std::deque, std::string.  Sizes are below 2^62.
#[verifier::external_body]
pub fn vec_len<T>(v: CVec<T>) -> (r: u64) ensures r as int == v@.len(), v@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn vec_at<T: Copy>(v: CVec<T>, i: u64) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vec_last_ix<T>(v: CVec<T>) -> (r: u64) requires v@.len() > 0 ensures r == v@.len() - 1 { unimplemented!() }
#[verifier::external_body]
pub fn vec_rix<T>(v: CVec<T>, i: u64) -> (r: u64) requires i < v@.len() ensures r == v@.len() - 1 - i { unimplemented!() }
#[verifier::external_body]
pub fn vec_set<T: Copy>(v: CVec<T>, i: u64, x: T) -> (r: CVec<T>) requires i < v@.len() ensures r@ == v@.update(i as int, x), v@[i as int] == x ==> r == v { unimplemented!() }
pub fn vec_push<T>(v: CVec<T>, x: T) -> (r: CVec<T>) ensures r@ == v@.push(x) { CVec { g: Ghost(v@.push(x)) } }
pub fn vec_push_front<T>(v: CVec<T>, x: T) -> (r: CVec<T>) ensures r@ == seq![x] + v@ { CVec { g: Ghost(seq![x] + v@) } }
pub fn vec_pop_back<T>(v: CVec<T>) -> (r: CVec<T>) requires v@.len() > 0 ensures r@ == v@.drop_last() { CVec { g: Ghost(v@.drop_last()) } }
pub fn vec_pop_front<T>(v: CVec<T>) -> (r: CVec<T>) requires v@.len() > 0 ensures r@ == v@.skip(1) { CVec { g: Ghost(v@.skip(1)) } }
pub fn str_lit(s: Ghost<Seq<u8>>) -> (r: CVec<u8>) ensures r@ == s@ { CVec { g: s } }
pub fn vec_new<T>() -> (r: CVec<T>) ensures r@ == Seq::<T>::empty() { CVec { g: Ghost(Seq::empty()) } }
pub fn vec_fill<T: Copy>(n: u64, x: T) -> (r: CVec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { CVec { g: Ghost(Seq::new(n as nat, |i: int| x)) } }
pub fn vec_resize<T: Copy>(v: CVec<T>, n: u64, x: T) -> (r: CVec<T>) ensures r@ == Seq::new(n as nat, |i: int| if i < v@.len() { v@[i] } else { x }) { CVec { g: Ghost(Seq::new(n as nat, |i: int| if i < v@.len() { v@[i] } else { x })) } }
#[verifier::external_body]
pub fn vec_eq<T>(a: CVec<T>, b: CVec<T>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn val_eq<T>(a: T, b: T) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body]
pub fn str_cat(a: CVec<u8>, b: CVec<u8>) -> (r: CVec<u8>) ensures r@ == a@ + b@ { unimplemented!() }
// std::map
pub fn map_new<K, V>() -> (r: CMap<K, V>) ensures r@ == Map::<K, V>::empty() { CMap { g: Ghost(Map::empty()) } }
#[verifier::external_body]
pub fn map_at<K, V: Copy>(m: CMap<K, V>, k: K) -> (r: V) requires m@.dom().contains(k) ensures r == m@[k] { unimplemented!() }
#[verifier::external_body]
pub fn map_has<K, V>(m: CMap<K, V>, k: K) -> (r: bool) ensures r == m@.dom().contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_is_empty<K, V>(m: CMap<K, V>) -> (r: bool) ensures r == (m@.dom() =~= Set::<K>::empty()), !r ==> exists|k: K| m@.dom().contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_size<K, V>(m: CMap<K, V>) -> (r: u64) ensures r == m@.dom().len() { unimplemented!() }
#[verifier::external_body]
pub fn map_put<K, V>(m: CMap<K, V>, k: K, v: V) -> (r: CMap<K, V>) ensures r@ == m@.insert(k, v), m@.dom().contains(k) && m@[k] == v ==> r == m { unimplemented!() }
#[verifier::external_body]
pub fn map_touch<K, V>(m: CMap<K, V>, k: K, v: V) -> (r: CMap<K, V>) ensures r@ == (if m@.dom().contains(k) { m@ } else { m@.insert(k, v) }), m@.dom().contains(k) ==> r == m { unimplemented!() }
pub fn map_remove<K, V>(m: CMap<K, V>, k: K) -> (r: CMap<K, V>) ensures r@ == m@.remove(k) { CMap { g: Ghost(m@.remove(k)) } }
pub fn map_remove_it<K, V>(m: CMap<K, V>, i: MapIt<K>) -> (r: CMap<K, V>) requires i.present(), m@.dom().contains(i.key()) ensures r@ == m@.remove(i.key()) { CMap { g: Ghost(m@.remove(i.key())) } }
#[verifier::external_body]
pub fn map_find<K, V>(m: CMap<K, V>, k: K) -> (r: MapIt<K>) ensures r.present() == m@.dom().contains(k), r.present() ==> r.key() == k { unimplemented!() }
#[verifier::external_body]
pub fn mapit_end<K>() -> (r: MapIt<K>) ensures !r.present() { unimplemented!() }
#[verifier::external_body]
pub fn mapit_eq<K>(a: MapIt<K>, b: MapIt<K>) -> (r: bool) ensures r == (a.present() == b.present() && (a.present() ==> a.key() == b.key())) { unimplemented!() }
#[verifier::external_body]
pub fn mapit_key<K: Copy>(a: MapIt<K>) -> (r: K) requires a.present() ensures r == a.key() { unimplemented!() }
#[verifier::external_body]
pub fn map_begin<K, V>(m: CMap<K, V>) -> (r: MapIt<K>) ensures r.present() == !(m@.dom() =~= Set::<K>::empty()), r.present() ==> m@.dom().contains(r.key()) { unimplemented!() }
#[verifier::external_body]
pub fn set_begin<K>(m: CSet<K>) -> (r: MapIt<K>) ensures r.present() == !(m@ =~= Set::<K>::empty()), r.present() ==> m@.contains(r.key()) { unimplemented!() }
// the keys in iteration order (increasing)
pub uninterp spec fn key_less<K>(a: K, b: K) -> bool;
pub open spec fn is_enum_of<K>(s: Seq<K>, d: Set<K>) -> bool {
  &&& forall|k: K| #[trigger] d.contains(k) <==> s.contains(k)
  &&& forall|i: int| 0 <= i < s.len() ==> d.contains(#[trigger] s[i])
  &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i] != s[j]
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] key_less(s[i], s[j])
}
pub uninterp spec fn keys_of<K>(d: Set<K>) -> Seq<K>;
#[verifier::external_body]
pub fn map_keys<K, V>(m: CMap<K, V>) -> (r: CVec<K>) ensures is_enum_of(r@, m@.dom()), r@ == keys_of(m@.dom()), r@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn set_elems<K>(m: CSet<K>) -> (r: CVec<K>) ensures is_enum_of(r@, m@), r@ == keys_of(m@), r@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
pub broadcast axiom fn axiom_key_less_u64(a: u64, b: u64) ensures #[trigger] key_less(a, b) == (a < b);
pub broadcast axiom fn axiom_key_less_u32(a: u32, b: u32) ensures #[trigger] key_less(a, b) == (a < b);
// std::set
pub fn set_new<K>() -> (r: CSet<K>) ensures r@ == Set::<K>::empty() { CSet { g: Ghost(Set::empty()) } }
#[verifier::external_body]
pub fn set_has<K>(m: CSet<K>, k: K) -> (r: bool) ensures r == m@.contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn set_is_empty<K>(m: CSet<K>) -> (r: bool) ensures r == (m@ =~= Set::<K>::empty()), !r ==> exists|k: K| m@.contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn set_size<K>(m: CSet<K>) -> (r: u64) ensures r == m@.len() { unimplemented!() }
pub fn set_insert<K>(m: CSet<K>, k: K) -> (r: CSet<K>) ensures r@ == m@.insert(k) { CSet { g: Ghost(m@.insert(k)) } }
pub fn set_remove<K>(m: CSet<K>, k: K) -> (r: CSet<K>) ensures r@ == m@.remove(k) { CSet { g: Ghost(m@.remove(k)) } }
pub fn set_remove_it<K>(m: CSet<K>, i: MapIt<K>) -> (r: CSet<K>) requires i.present(), m@.contains(i.key()) ensures r@ == m@.remove(i.key()) { CSet { g: Ghost(m@.remove(i.key())) } }
#[verifier::external_body]
pub fn set_find<K>(m: CSet<K>, k: K) -> (r: MapIt<K>) ensures r.present() == m@.contains(k), r.present() ==> r.key() == k { unimplemented!() }
#[verifier::external_body]
pub fn set_from<K>(s: CVec<K>) -> (r: CSet<K>) ensures forall|k: K| #[trigger] r@.contains(k) <==> s@.contains(k) { unimplemented!() }
// lexicographic order
pub open spec fn seq_lt(a: Seq<int>, b: Seq<int>) -> bool decreases a.len() { if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { seq_lt(a.skip(1), b.skip(1)) } }
pub open spec fn ints_u32(a: Seq<u32>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] as int) }
pub open spec fn ints_i32(a: Seq<i32>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] as int) }
#[verifier::external_body]
pub fn vec_lt_u32(a: CVec<u32>, b: CVec<u32>) -> (r: bool) ensures r == seq_lt(ints_u32(a@), ints_u32(b@)) { unimplemented!() }
#[verifier::external_body]
pub fn vec_lt_i32(a: CVec<i32>, b: CVec<i32>) -> (r: bool) ensures r == seq_lt(ints_i32(a@), ints_i32(b@)) { unimplemented!() }
// std::mutex: a lock that is held by the running thread
pub struct CMutex { pub g: Ghost<(bool, int)> }
impl Clone for CMutex { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CMutex {}
// how often the lock has been taken: operations that take it once are atomic
impl CMutex { pub open spec fn held(self) -> bool { self.g@.0 } pub open spec fn times(self) -> int { self.g@.1 } }
#[verifier::external_body]
pub fn mutex_lock(m: CMutex) -> (r: CMutex) requires !m.held() ensures r.held(), r.times() == m.times() + 1 { unimplemented!() }
#[verifier::external_body]
pub fn mutex_unlock(m: CMutex) -> (r: CMutex) requires m.held() ensures !r.held(), r.times() == m.times() { unimplemented!() }
#[verifier::external_body]
pub fn mutex_guard(m: CMutex) requires m.held() { unimplemented!() }
// std::sort
pub uninterp spec fn val_le<T>(a: T, b: T) -> bool;
pub axiom fn axiom_val_le_u32(a: u32, b: u32) ensures val_le(a, b) == (a <= b);
#[verifier::external_body]
pub fn vec_sort<T>(v: CVec<T>) -> (r: CVec<T>) ensures r@.to_multiset() == v@.to_multiset(), r@.len() == v@.len(), forall|i: int, j: int| 0 <= i < j < r@.len() ==> #[trigger] val_le(r@[i], r@[j]) { unimplemented!() }
#[verifier::external_body]
pub fn vec_sort_desc<T>(v: CVec<T>) -> (r: CVec<T>) ensures r@.to_multiset() == v@.to_multiset(), r@.len() == v@.len(), forall|i: int, j: int| 0 <= i < j < r@.len() ==> #[trigger] val_le(r@[j], r@[i]) { unimplemented!() }
// double, restricted to integers that are represented exactly
pub struct CDbl { pub g: Ghost<int> }
impl Clone for CDbl { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CDbl {}
impl CDbl { pub open spec fn view(self) -> int { self.g@ } }
pub open spec fn dbl_exact(x: int) -> bool { -0x20_0000_0000_0000 <= x <= 0x20_0000_0000_0000 }
#[verifier::external_body]
pub fn dbl_add(a: CDbl, b: CDbl) -> (r: CDbl) requires dbl_exact(a@ + b@) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_sub(a: CDbl, b: CDbl) -> (r: CDbl) requires dbl_exact(a@ - b@) ensures r@ == a@ - b@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_mul(a: CDbl, b: CDbl) -> (r: CDbl) requires dbl_exact(a@ * b@) ensures r@ == a@ * b@ { unimplemented!() }
#[verifier::external_body]
pub fn dbl_pow(a: CDbl, b: CDbl) -> (r: CDbl) requires b@ >= 0, dbl_exact(pow(a@, b@ as nat)) ensures r@ == pow(a@, b@ as nat) { unimplemented!() }
'''
if __name__ == '__main__':
    a = arith()
    import re
    # bitwise not is not used by the code; leave it out
    a = re.sub(r'pub fn u\d+_not.*\n', '', a)
    open('/verif/contracts/common.rs', 'w').write(HEAD.lstrip() + a + '\n')
