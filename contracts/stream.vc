@trusted std::iostream: contracts of string streams, numbers in decimal, getline, peek, ignore in contracts/stream.vc are assumed
@prelude
pub struct St { pub data: Seq<u8>, pub pos: int, pub fail: bool, pub eof: bool, pub app: bool, pub file: Seq<u8> }
pub struct CStream { pub g: Ghost<St> }
impl Clone for CStream { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CStream {}
impl CStream { pub open spec fn view(self) -> St { self.g@ } }
// a stream that reads text s from the start
pub open spec fn reading(s: Seq<u8>) -> St { St { data: s, pos: 0, fail: false, eof: false, app: false, file: Seq::<u8>::empty() } }
pub open spec fn at(s: Seq<u8>, p: int) -> St { St { data: s, pos: p, fail: false, eof: false, app: false, file: Seq::<u8>::empty() } }
pub open spec fn good(s: St) -> bool { !s.fail && !s.eof }
pub open spec fn put(s: St, t: Seq<u8>) -> St { if good(s) { St { data: s.data + t, ..s } } else { St { fail: true, ..s } } }
pub open spec fn isd(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn isws(c: u8) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn dec(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn deci(x: int) -> Seq<u8> { if x < 0 { seq![45u8] + dec((-x) as nat) } else { dec(x as nat) } }
pub open spec fn numval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { numval(s.drop_last()) * 10 + (s.last() - 48) } }
pub open spec fn dig_end(d: Seq<u8>, p: int) -> int decreases d.len() - p { if 0 <= p < d.len() && isd(d[p]) { dig_end(d, p + 1) } else { p } }
pub open spec fn ws_end(d: Seq<u8>, p: int) -> int decreases d.len() - p { if 0 <= p < d.len() && isws(d[p]) { ws_end(d, p + 1) } else { p } }
pub open spec fn signed(d: Seq<u8>, p: int) -> bool { 0 <= p < d.len() && (d[p] == 45 || d[p] == 43) }
pub open spec fn num_start(d: Seq<u8>, p: int) -> int { if signed(d, p) { p + 1 } else { p } }
pub open spec fn num_end(d: Seq<u8>, p: int) -> int { dig_end(d, num_start(d, p)) }
pub open spec fn is_num(d: Seq<u8>, p: int) -> bool { num_end(d, p) > num_start(d, p) }
pub open spec fn num_at(d: Seq<u8>, p: int) -> int { let v = numval(d.subrange(num_start(d, p), num_end(d, p))); if signed(d, p) && d[p] == 45 { -v } else { v } }
pub open spec fn find(d: Seq<u8>, p: int, c: u8) -> int decreases d.len() - p { if 0 <= p < d.len() && d[p] != c { find(d, p + 1, c) } else { p } }
// a stream that is written, possibly one that has failed
pub open spec fn ready(s: St) -> bool { s.app && (s.fail || !s.eof) }
#[verifier::external_body]
pub fn stream_new() -> (r: CStream) ensures r@ == (St { data: Seq::<u8>::empty(), pos: 0, fail: false, eof: false, app: true, file: Seq::<u8>::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn stream_of(s: CVec<u8>) -> (r: CStream) ensures r@ == reading(s@) { unimplemented!() }
#[verifier::external_body]
pub fn stream_str(s: CStream) -> (r: CVec<u8>) ensures r@ == s@.data { unimplemented!() }
#[verifier::external_body]
pub fn stream_ok(s: CStream) -> (r: bool) ensures r == !s@.fail { unimplemented!() }
#[verifier::external_body]
pub fn stream_eof(s: CStream) -> (r: bool) ensures r == s@.eof { unimplemented!() }
#[verifier::external_body]
pub fn stream_good(s: CStream) -> (r: bool) ensures r == good(s@) { unimplemented!() }
#[verifier::external_body]
pub fn stream_put_str(s: CStream, t: CVec<u8>) -> (r: CStream) requires s@.app ensures r@ == put(s@, t@) { unimplemented!() }
#[verifier::external_body]
pub fn stream_put_char(s: CStream, c: u8) -> (r: CStream) requires s@.app ensures r@ == put(s@, seq![c]) { unimplemented!() }
#[verifier::external_body]
pub fn stream_put_i32(s: CStream, x: i32) -> (r: CStream) requires s@.app ensures r@ == put(s@, deci(x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn stream_put_u32(s: CStream, x: u32) -> (r: CStream) requires s@.app ensures r@ == put(s@, deci(x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn stream_put_u64(s: CStream, x: u64) -> (r: CStream) requires s@.app ensures r@ == put(s@, deci(x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn stream_put_i64(s: CStream, x: i64) -> (r: CStream) requires s@.app ensures r@ == put(s@, deci(x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn stream_put_bool(s: CStream, x: bool) -> (r: CStream) requires s@.app ensures r@ == put(s@, if x { seq![49u8] } else { seq![48u8] }) { unimplemented!() }
// reading a number: white space is skipped, the longest run of digits is read
pub open spec fn got_num(s: St, lo: int, hi: int, r: St, v: int) -> bool {
  let p = ws_end(s.data, s.pos);
  0 <= r.pos <= s.data.len() && if good(s) && p < s.data.len() && is_num(s.data, p) && lo <= num_at(s.data, p) <= hi { v == num_at(s.data, p) && r == (St { pos: num_end(s.data, p), eof: num_end(s.data, p) >= s.data.len(), ..s }) }
  else { r.fail && r.data == s.data && r.app == s.app && (good(s) && p >= s.data.len() ==> r.eof && r.pos >= s.data.len()) }
}
#[verifier::external_body]
pub fn stream_get_i32(s: CStream, x: i32) -> (r: (CStream, i32)) requires 0 <= s@.pos <= s@.data.len() ensures got_num(s@, -0x8000_0000, 0x7fff_ffff, r.0@, r.1 as int) { unimplemented!() }
#[verifier::external_body]
pub fn stream_get_u32(s: CStream, x: u32) -> (r: (CStream, u32)) requires 0 <= s@.pos <= s@.data.len() ensures !signed(s@.data, ws_end(s@.data, s@.pos)) ==> got_num(s@, 0, 0xffff_ffff, r.0@, r.1 as int) { unimplemented!() }
#[verifier::external_body]
pub fn stream_get_i64(s: CStream, x: i64) -> (r: (CStream, i64)) requires 0 <= s@.pos <= s@.data.len() ensures got_num(s@, -0x8000_0000_0000_0000, 0x7fff_ffff_ffff_ffff, r.0@, r.1 as int) { unimplemented!() }
#[verifier::external_body]
pub fn stream_get_u64(s: CStream, x: u64) -> (r: (CStream, u64)) requires 0 <= s@.pos <= s@.data.len() ensures !signed(s@.data, ws_end(s@.data, s@.pos)) ==> got_num(s@, 0, 0xffff_ffff_ffff_ffff, r.0@, r.1 as int) { unimplemented!() }
#[verifier::external_body]
pub fn stream_peek(s: CStream) -> (r: (i32, CStream)) requires 0 <= s@.pos <= s@.data.len()
  ensures good(s@) && s@.pos < s@.data.len() ==> r.0 == s@.data[s@.pos] && r.1 == s,
    good(s@) && s@.pos >= s@.data.len() ==> r.0 == -1 && r.1@ == (St { eof: true, ..s@ }),
    !good(s@) ==> r.0 == -1 && r.1@ == (St { fail: true, ..s@ }) { unimplemented!() }
#[verifier::external_body]
pub fn stream_ignore(s: CStream, n: i64) -> (r: CStream) requires 0 <= s@.pos <= s@.data.len(), n >= 0
  ensures good(s@) && s@.pos + n <= s@.data.len() ==> r@ == (St { pos: s@.pos + n, ..s@ }),
    good(s@) && s@.pos + n > s@.data.len() ==> r@ == (St { pos: s@.data.len() as int, eof: true, ..s@ }),
    !good(s@) ==> r@ == (St { fail: true, ..s@ }) { unimplemented!() }
#[verifier::external_body]
pub fn stream_getline(s: CStream, x: CVec<u8>, c: u8) -> (r: (CStream, CVec<u8>)) requires 0 <= s@.pos <= s@.data.len()
  ensures 0 <= r.0@.pos <= r.0@.data.len(), ({ let e = find(s@.data, s@.pos, c); let n = s@.data.len();
    if !good(s@) { r.0@ == (St { fail: true, ..s@ }) }
    else if e < n { r.0@ == (St { pos: e + 1, ..s@ }) && r.1@ == s@.data.subrange(s@.pos, e) }
    else { r.0@ == (St { pos: n as int, eof: true, fail: s@.pos >= n, ..s@ }) && r.1@ == s@.data.subrange(s@.pos, n as int) } }) { unimplemented!() }
// ------------------------------------------------------------------ lemmas
pub proof fn lemma_dec(n: nat)
  ensures dec(n).len() >= 1, numval(dec(n)) == n, forall|i: int| 0 <= i < dec(n).len() ==> isd(#[trigger] dec(n)[i])
  decreases n
{
  if n < 10 {
    let c = (48 + n) as u8; let s = seq![c];
    assert(s.drop_last() =~= Seq::<u8>::empty()); assert(s.last() == c);
    assert(numval(s.drop_last()) == 0);
    assert(numval(s) == numval(s.drop_last()) * 10 + (s.last() - 48));
  } else {
    lemma_dec(n / 10);
    let c = (48 + n % 10) as u8;
    assert(dec(n).drop_last() =~= dec(n / 10));
    assert(dec(n).last() == c);
    assert(numval(dec(n)) == numval(dec(n / 10)) * 10 + (c - 48));
  }
}
pub proof fn lemma_dig_end(d: Seq<u8>, a: int, b: int)
  requires 0 <= a <= b <= d.len(), forall|i: int| a <= i < b ==> isd(#[trigger] d[i]), b < d.len() ==> !isd(d[b])
  ensures dig_end(d, a) == b
  decreases b - a
{ if a < b { lemma_dig_end(d, a + 1, b); } }
pub proof fn lemma_find(d: Seq<u8>, a: int, b: int, c: u8)
  requires 0 <= a <= b <= d.len(), forall|i: int| a <= i < b ==> #[trigger] d[i] != c, b < d.len() ==> d[b] == c
  ensures find(d, a, c) == b
  decreases b - a
{ if a < b { lemma_find(d, a + 1, b, c); } }
pub proof fn lemma_deci(x: int)
  ensures deci(x).len() >= 1, forall|i: int| 0 <= i < deci(x).len() ==> isd(#[trigger] deci(x)[i]) || deci(x)[i] == 45, isd(deci(x).last())
{ if x < 0 { lemma_dec((-x) as nat); assert(deci(x).last() == dec((-x) as nat).last()); } else { lemma_dec(x as nat); } }
// the numeral of x written at p is read as x
pub proof fn lemma_num(d: Seq<u8>, p: int, x: int)
  requires 0 <= p, p + deci(x).len() <= d.len(), d.subrange(p, p + deci(x).len()) == deci(x), p + deci(x).len() < d.len() ==> !isd(d[p + deci(x).len()])
  ensures is_num(d, p), num_at(d, p) == x, num_end(d, p) == p + deci(x).len(), ws_end(d, p) == p, p < d.len(), deci(x).len() >= 1
{
  let s = deci(x); let e = p + s.len();
  lemma_deci(x);
  assert forall|i: int| p <= i < e implies #[trigger] d[i] == s[i - p] by { assert(d.subrange(p, e)[i - p] == d[i]); }
  assert(d[p] == s[0]);
  if x < 0 {
    let t = dec((-x) as nat); lemma_dec((-x) as nat);
    assert(s[0] == 45u8);
    assert forall|i: int| p + 1 <= i < e implies isd(#[trigger] d[i]) by { assert(d[i] == s[i - p]); assert(s[i - p] == t[i - p - 1]); }
    lemma_dig_end(d, p + 1, e);
    assert(d.subrange(p + 1, e) =~= t) by { assert forall|i: int| 0 <= i < t.len() implies d.subrange(p + 1, e)[i] == t[i] by { assert(d[p + 1 + i] == s[i + 1]); } }
  } else {
    lemma_dec(x as nat);
    assert(isd(s[0]));
    assert forall|i: int| p <= i < e implies isd(#[trigger] d[i]) by { assert(d[i] == s[i - p]); }
    lemma_dig_end(d, p, e);
    assert(d.subrange(p, e) =~= s);
  }
}
@end
