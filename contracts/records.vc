# Records of finished blocks: what is written is read back exactly (C13)
@tu src/store/file_store.cc
@use fs.vc
@prelude
pub open spec fn block_ok(b: Seq<(u32, u32)>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 < 0x8000_0000 && b[i].1 < 0x8000_0000 }
pub open spec fn pair_text(x: (u32, u32)) -> Seq<u8> { deci(x.0 as int) + seq![32u8] + deci(x.1 as int) + seq![32u8] }
pub open spec fn block_text(b: Seq<(u32, u32)>) -> Seq<u8> decreases b.len() { if b.len() == 0 { Seq::<u8>::empty() } else { pair_text(b[0]) + block_text(b.skip(1)) } }
pub open spec fn record_text(bs: Seq<CVec<(u32, u32)>>) -> Seq<u8> decreases bs.len() { if bs.len() == 0 { Seq::<u8>::empty() } else { block_text(bs[0]@) + seq![10u8] + record_text(bs.skip(1)) } }
pub open spec fn blocks_ok(bs: Seq<CVec<(u32, u32)>>) -> bool { forall|i: int| 0 <= i < bs.len() ==> block_ok((#[trigger] bs[i])@) }
pub open spec fn members(bs: Seq<CVec<(u32, u32)>>, s: Set<CVec<(u32, u32)>>) -> bool { forall|k: CVec<(u32, u32)>| #[trigger] s.contains(k) <==> bs.contains(k) }
pub open spec fn is_record(t: Seq<u8>, s: Set<CVec<(u32, u32)>>) -> bool { exists|bs: Seq<CVec<(u32, u32)>>| members(bs, s) && t == record_text(bs) }
pub proof fn lemma_block_push(b: Seq<(u32, u32)>, x: (u32, u32))
  ensures block_text(b.push(x)) == block_text(b) + pair_text(x)
  decreases b.len()
{
  if b.len() == 0 { assert(b.push(x).skip(1) =~= Seq::<(u32, u32)>::empty()); assert(block_text(b.push(x).skip(1)) == Seq::<u8>::empty()); assert(b.push(x)[0] == x); assert(block_text(b.push(x)) =~= pair_text(x) + Seq::<u8>::empty()); assert(block_text(b) + pair_text(x) =~= pair_text(x)); }
  else { assert(b.push(x).skip(1) =~= b.skip(1).push(x)); assert(b.push(x)[0] == b[0]); lemma_block_push(b.skip(1), x); assert(block_text(b.push(x)) =~= block_text(b) + pair_text(x)); }
}
pub proof fn lemma_record_push(b: Seq<CVec<(u32, u32)>>, x: CVec<(u32, u32)>)
  ensures record_text(b.push(x)) == record_text(b) + block_text(x@) + seq![10u8]
  decreases b.len()
{
  if b.len() == 0 { assert(b.push(x).skip(1) =~= Seq::<CVec<(u32, u32)>>::empty()); assert(record_text(b.push(x).skip(1)) == Seq::<u8>::empty()); assert(b.push(x)[0] == x); assert(record_text(b.push(x)) =~= block_text(x@) + seq![10u8]); assert(record_text(b) + block_text(x@) + seq![10u8] =~= block_text(x@) + seq![10u8]); }
  else { assert(b.push(x).skip(1) =~= b.skip(1).push(x)); assert(b.push(x)[0] == b[0]); lemma_record_push(b.skip(1), x); assert(record_text(b.push(x)) =~= record_text(b) + block_text(x@) + seq![10u8]); }
}
// a line holds digits and spaces only
pub open spec fn plain(c: u8) -> bool { isd(c) || c == 32 }
pub proof fn lemma_pair_plain(x: (u32, u32))
  ensures forall|i: int| 0 <= i < pair_text(x).len() ==> plain(#[trigger] pair_text(x)[i]), isd(pair_text(x)[0]), pair_text(x).len() >= 4
{
  lemma_dec(x.0 as nat); lemma_dec(x.1 as nat); let A = dec(x.0 as nat); let B = dec(x.1 as nat); let t = pair_text(x);
  assert(t =~= A + seq![32u8] + B + seq![32u8]);
  assert forall|i: int| 0 <= i < t.len() implies plain(#[trigger] t[i]) by { if i < A.len() { assert(t[i] == A[i]); } else if A.len() < i < A.len() + 1 + B.len() { assert(t[i] == B[i - A.len() - 1]); } }
  assert(t[0] == A[0]);
}
pub proof fn lemma_block_plain(b: Seq<(u32, u32)>)
  ensures forall|i: int| 0 <= i < block_text(b).len() ==> plain(#[trigger] block_text(b)[i]), b.len() > 0 ==> block_text(b).len() > 0 && isd(block_text(b)[0])
  decreases b.len()
{
  if b.len() > 0 {
    lemma_block_plain(b.skip(1)); lemma_pair_plain(b[0]);
    let t = block_text(b); let u = pair_text(b[0]); let v = block_text(b.skip(1));
    assert forall|i: int| 0 <= i < t.len() implies plain(#[trigger] t[i]) by { if i < u.len() { assert(t[i] == u[i]); } else { assert(t[i] == v[i - u.len()]); } }
    assert(t[0] == u[0]);
  }
}
// reading a pair where a pair was written
pub open spec fn after_first(d: Seq<u8>, p: int) -> int { num_end(d, ws_end(d, p)) }
pub proof fn lemma_pair(d: Seq<u8>, p: int, x: (u32, u32), rest: Seq<u8>)
  requires 0 <= p <= d.len(), d.skip(p) == pair_text(x) + rest
  ensures ({ let e = after_first(d, p); let f = num_end(d, ws_end(d, e));
    &&& ws_end(d, p) == p < d.len() && is_num(d, p) && num_at(d, p) == x.0 && !signed(d, p)
    &&& p < e < d.len() && ws_end(d, e) == e + 1 && e + 1 < d.len() && is_num(d, e + 1) && num_at(d, e + 1) == x.1 && !signed(d, e + 1)
    &&& e < f < d.len() && d.skip(f) == seq![32u8] + rest && d[f] == 32 })
{
  let t = pair_text(x); let A = deci(x.0 as int); let B = deci(x.1 as int); let s = d.skip(p);
  lemma_dec(x.0 as nat); lemma_dec(x.1 as nat);
  let e = p + A.len(); let f = e + 1 + B.len();
  assert(s == t + rest); assert(s.len() == t.len() + rest.len()); assert(d.len() == p + s.len());
  assert(t.len() == A.len() + 1 + B.len() + 1);
  assert forall|i: int| 0 <= i < t.len() implies d[p + i] == t[i] by { assert((t + rest)[i] == t[i]); assert(s[i] == d[p + i]); }
  assert(d.subrange(p, e) =~= A) by { assert forall|i: int| 0 <= i < A.len() implies d.subrange(p, e)[i] == A[i] by { assert(d[p + i] == t[i]); } }
  assert(d[e] == 32) by { assert(d[p + A.len()] == t[A.len() as int]); }
  lemma_num(d, p, x.0 as int);
  assert(d[p] == A[0]) by { assert(d[p + 0] == t[0]); }
  assert(num_end(d, p) == e);
  assert(d.subrange(e + 1, f) =~= B) by { assert forall|i: int| 0 <= i < B.len() implies d.subrange(e + 1, f)[i] == B[i] by { assert(d[p + (A.len() + 1 + i)] == t[A.len() + 1 + i]); } }
  assert(d[f] == 32) by { assert(d[p + (A.len() + 1 + B.len())] == t[(A.len() + 1 + B.len()) as int]); }
  lemma_num(d, e + 1, x.1 as int);
  assert(d[e + 1] == B[0]) by { assert(d[p + (A.len() + 1)] == t[(A.len() + 1) as int]); }
  assert(ws_end(d, e) == e + 1) by { assert(ws_end(d, e + 1) == e + 1); }
  assert(d.skip(f) =~= seq![32u8] + rest) by { assert forall|i: int| 0 <= i < d.skip(f).len() implies d.skip(f)[i] == (seq![32u8] + rest)[i] by { assert(d.skip(f)[i] == d[f + i]); assert(d[f + i] == s[f + i - p]); if i > 0 { assert(s[f + i - p] == rest[i - 1]); } } }
}
// the stream stands at the rest of a line, with one space before it once something has been read
pub open spec fn line_at(s: St, b: Seq<(u32, u32)>) -> bool { &&& 0 <= s.pos <= s.data.len() && good(s) && !s.app && (s.data.skip(s.pos) == block_text(b) || s.data.skip(s.pos) == seq![32u8] + block_text(b)) }
pub proof fn lemma_line_at(s: St, b: Seq<(u32, u32)>)
  requires line_at(s, b)
  ensures ({ let p = ws_end(s.data, s.pos);
    &&& s.pos <= p <= s.data.len()
    &&& b.len() == 0 ==> p == s.data.len()
    &&& b.len() > 0 ==> p < s.data.len() && s.data.skip(p) == pair_text(b[0]) + block_text(b.skip(1)) })
{
  let d = s.data; let q = s.pos; lemma_block_plain(b); let t = block_text(b);
  let o = if d.skip(q) == t { 0int } else { 1int };
  assert(d.skip(q).len() == o + t.len());
  assert(d.len() == q + o + t.len());
  if o == 1 { assert(d[q] == 32) by { assert(d.skip(q)[0] == d[q]); } }
  assert(d.skip(q + o) =~= t) by { assert forall|i: int| 0 <= i < t.len() implies d.skip(q + o)[i] == t[i] by { assert(d.skip(q)[o + i] == d[q + o + i]); } }
  if t.len() > 0 { assert(d[q + o] == t[0]) by { assert(d.skip(q + o)[0] == d[q + o]); } }
  assert(ws_end(d, q + o) == q + o);
  if o == 1 { assert(ws_end(d, q) == ws_end(d, q + 1)); }
}
pub open spec fn got_i32(s: St, r: St, v: int) -> bool { got_num(s, -0x8000_0000, 0x7fff_ffff, r, v) }
pub proof fn lemma_read_pair(s1: St, s2: St, v: int, s3: St, w: int, b: Seq<(u32, u32)>)
  requires line_at(s1, b), got_i32(s1, s2, v), got_i32(s2, s3, w), block_ok(b)
  ensures b.len() == 0 ==> s3.fail,
    b.len() > 0 ==> v == b[0].0 && w == b[0].1 && line_at(s3, b.skip(1))
{
  lemma_line_at(s1, b);
  if b.len() > 0 { assert(b[0].0 < 0x8000_0000 && b[0].1 < 0x8000_0000); lemma_pair(s1.data, ws_end(s1.data, s1.pos), b[0], block_text(b.skip(1))); }
}
pub proof fn lemma_block_injective(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>)
  requires block_text(a) == block_text(b)
  ensures a == b
  decreases a.len()
{
  lemma_block_plain(a); lemma_block_plain(b);
  if a.len() == 0 || b.len() == 0 { assert(a =~= b); }
  else {
    let d = block_text(a); assert(d.skip(0) =~= d);
    lemma_pair(d, 0, a[0], block_text(a.skip(1))); lemma_pair(d, 0, b[0], block_text(b.skip(1)));
    assert(a[0] == b[0]);
    let n = pair_text(a[0]).len() as int;
    assert(d.skip(n) =~= block_text(a.skip(1))); assert(d.skip(n) =~= block_text(b.skip(1)));
    lemma_block_injective(a.skip(1), b.skip(1));
    assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
  }
}
// the line that getline reads
pub open spec fn line_of(s: St) -> Seq<u8> { s.data.subrange(s.pos, find(s.data, s.pos, 10)) }
pub proof fn lemma_find_range(d: Seq<u8>, p: int, c: u8)
  requires 0 <= p <= d.len()
  ensures p <= find(d, p, c) <= d.len()
  decreases d.len() - p
{ if p < d.len() && d[p] != c { lemma_find_range(d, p + 1, c); } }
pub proof fn lemma_record_line(d: Seq<u8>, p: int, bs: Seq<CVec<(u32, u32)>>)
  requires 0 <= p <= d.len(), d.skip(p) == record_text(bs), bs.len() > 0
  ensures ({ let e = find(d, p, 10); p <= e < d.len() && d.subrange(p, e) == block_text(bs[0]@) && d.skip(e + 1) == record_text(bs.skip(1)) })
{
  let t = block_text(bs[0]@); lemma_block_plain(bs[0]@); let e = p + t.len(); let r = record_text(bs);
  assert(r.len() == t.len() + 1 + record_text(bs.skip(1)).len());
  assert forall|i: int| p <= i < e implies #[trigger] d[i] != 10 by { assert(d.skip(p)[i - p] == d[i]); assert(r[i - p] == t[i - p]); }
  assert(d[e] == 10) by { assert(d.skip(p)[t.len() as int] == d[e]); }
  lemma_find(d, p, e, 10);
  assert(d.subrange(p, e) =~= t) by { assert forall|i: int| 0 <= i < t.len() implies d.subrange(p, e)[i] == t[i] by { assert(d.skip(p)[i] == d[p + i]); } }
  assert(d.skip(e + 1) =~= record_text(bs.skip(1))) by { assert forall|i: int| 0 <= i < record_text(bs.skip(1)).len() implies d.skip(e + 1)[i] == record_text(bs.skip(1))[i] by { assert(d.skip(p)[t.len() + 1 + i] == d[e + 1 + i]); } }
}
pub proof fn lemma_record_injective(a: Seq<CVec<(u32, u32)>>, b: Seq<CVec<(u32, u32)>>)
  requires record_text(a) == record_text(b)
  ensures a == b
  decreases a.len()
{
  if a.len() > 0 { assert(record_text(a).len() > 0); }
  if b.len() > 0 { assert(record_text(b).len() > 0); }
  if a.len() == 0 || b.len() == 0 { assert(a =~= b); }
  else {
    let d = record_text(a); assert(d.skip(0) =~= d);
    lemma_record_line(d, 0, a); lemma_record_line(d, 0, b);
    lemma_block_injective(a[0]@, b[0]@); assert(a[0].g@ == b[0].g@); assert(a[0].g == b[0].g); assert(a[0] == b[0]);
    lemma_record_injective(a.skip(1), b.skip(1));
    assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
  }
}
// block k is recorded in one of the record files of the directory
pub open spec fn is_rec_file(f: FsSt, p: Seq<u8>) -> bool { f.files.contains_key(p) && is_rec(p) }
pub open spec fn records_of(f: FsSt, p: Seq<u8>) -> Seq<CVec<(u32, u32)>> { choose|bs: Seq<CVec<(u32, u32)>>| blocks_ok(bs) && f.files[p].data == #[trigger] record_text(bs) }
pub open spec fn written(f: FsSt, p: Seq<u8>) -> bool { exists|bs: Seq<CVec<(u32, u32)>>| blocks_ok(bs) && f.files[p].data == #[trigger] record_text(bs) }
pub open spec fn in_files(f: FsSt, l: Seq<Seq<u8>>, k: CVec<(u32, u32)>) -> bool { exists|i: int| 0 <= i < l.len() && is_rec_file(f, #[trigger] l[i]) && records_of(f, l[i]).contains(k) }
@end

@fn insert_block = FileStore::insert 2 ~basic_ostream<char> &,const class std::vector
@requires stream: ready(stream0@)
@ensures text: res.stream@ == put(stream0@, block_text(block0@))
@loop 1
@inv it: 0 <= it1 <= block0@.len() && block == block0
@inv text: stream@ == put(stream0@, block_text(block0@.take(it1 as int)))
@decreases block0@.len() - it1
@proof begin
proof { assert(block0@.take(0) =~= Seq::<(u32, u32)>::empty()); assert(stream0@.data + Seq::<u8>::empty() =~= stream0@.data); }
@end
@proof loop 1 end
proof {
  let b = block0@.take(it1 as int); let x = block0@[it1 as int];
  assert(block0@.take(it1 + 1) =~= b.push(x)); lemma_block_push(b, x);
  assert(good(stream0@) ==> stream@.data =~= stream0@.data + block_text(b.push(x)));
}
@end
@proof after loop 1
proof { assert(block0@.take(it1 as int) =~= block0@); }
@end

@fn insert_record = FileStore::insert 2 ~basic_ostream<char> &,const class std::set
@requires stream: ready(stream0@)
@ensures record: exists|bs: Seq<CVec<(u32, u32)>>| members(bs, record0@) && res.stream@ == put(stream0@, record_text(bs))
@loop 1
@inv it: 0 <= it1 <= keys1@.len()
@inv text: stream@ == put(stream0@, record_text(keys1@.take(it1 as int)))
@decreases keys1@.len() - it1
@proof begin
proof { assert(stream0@.data + Seq::<u8>::empty() =~= stream0@.data); }
@end
@proof before loop 1
proof { assert(keys1@.take(0) =~= Seq::<CVec<(u32, u32)>>::empty()); }
@end
@proof loop 1 end
proof {
  let b = keys1@.take(it1 as int); let x = keys1@[it1 as int];
  assert(keys1@.take(it1 + 1) =~= b.push(x)); lemma_record_push(b, x);
  assert(good(stream0@) ==> stream@.data =~= stream0@.data + record_text(b.push(x)));
}
@end
@proof after loop 1
proof { assert(keys1@.take(it1 as int) =~= keys1@); assert(members(keys1@, record0@)); }
@end

@fn extract_block = FileStore::extract 2 ~basic_istream<char> &,class std::vector
@requires stream: good(stream0@) && 0 <= stream0@.pos <= stream0@.data.len()
@ensures block: forall|b: Seq<(u32, u32)>| block_ok(b) && line_of(stream0@) == #[trigger] block_text(b) ==> res.block@ == block0@ + b
@ensures pos: 0 <= res.stream@.pos <= res.stream@.data.len()
@ensures rest: find(stream0@.data, stream0@.pos, 10) < stream0@.data.len() ==> res.stream@ == (St { pos: find(stream0@.data, stream0@.pos, 10) + 1, ..stream0@ })
@proof begin
let ghost valid = exists|b: Seq<(u32, u32)>| block_ok(b) && line_of(stream0@) == #[trigger] block_text(b);
let ghost B = choose|b: Seq<(u32, u32)>| block_ok(b) && line_of(stream0@) == #[trigger] block_text(b);
let ghost mut k: int = 0;
proof {
  lemma_find_range(stream0@.data, stream0@.pos, 10);
  assert forall|b: Seq<(u32, u32)>| block_ok(b) && line_of(stream0@) == #[trigger] block_text(b) implies b == B by { lemma_block_injective(b, B); }
  assert(block0@ + B.take(0) =~= block0@); assert(B.skip(0) =~= B);
}
@end
@proof before loop 1
proof { assert(line_stream@.data.skip(0) =~= line_stream@.data); }
@end
@loop 1
@inv pos: 0 <= line_stream@.pos <= line_stream@.data.len()
@inv k: valid ==> 0 <= k <= B.len() && block@ == block0@ + B.take(k)
@inv at: valid ==> line_at(line_stream@, B.skip(k)) || (k == B.len() && line_stream@.fail)
@proof loop 1 top
let ghost s1 = line_stream@;
proof {
  if valid && good(s1) {
    let b = B.skip(k);
    assert(block_ok(b)) by { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 < 0x8000_0000 && b[i].1 < 0x8000_0000 by { assert(b[i] == B[k + i]); } }
    if k < B.len() { assert(b[0] == B[k]); assert(b.skip(1) =~= B.skip(k + 1)); }
    assert forall|s2: St, v: int, s3: St, w: int| #[trigger] got_num(s1, -0x8000_0000, 0x7fff_ffff, s2, v) && #[trigger] got_num(s2, -0x8000_0000, 0x7fff_ffff, s3, w) implies
      (k == B.len() ==> s3.fail) && (k < B.len() ==> v == B[k].0 && w == B[k].1 && line_at(s3, B.skip(k + 1))) by { lemma_read_pair(s1, s2, v, s3, w, b); }
  }
}
@end
@proof loop 1 end
proof {
  if valid { assert(B.take(k + 1) =~= B.take(k).push(B[k])); assert(block@ =~= block0@ + B.take(k + 1)); }
  k = k + 1;
}
@end
@proof after loop 1
proof { if valid { assert(B.take(k) =~= B); } }
@end

@fn extract_record = FileStore::extract 2 ~basic_istream<char> &,class std::set
@requires stream: good(stream0@) && 0 <= stream0@.pos <= stream0@.data.len()
@ensures record: forall|bs: Seq<CVec<(u32, u32)>>| blocks_ok(bs) && stream0@.data.skip(stream0@.pos) == #[trigger] record_text(bs) ==> forall|k: CVec<(u32, u32)>| #[trigger] res.record@.contains(k) <==> record0@.contains(k) || bs.contains(k)
@proof begin
let ghost valid = exists|bs: Seq<CVec<(u32, u32)>>| blocks_ok(bs) && stream0@.data.skip(stream0@.pos) == #[trigger] record_text(bs);
let ghost B = choose|bs: Seq<CVec<(u32, u32)>>| blocks_ok(bs) && stream0@.data.skip(stream0@.pos) == #[trigger] record_text(bs);
let ghost mut k: int = 0;
proof {
  assert forall|bs: Seq<CVec<(u32, u32)>>| blocks_ok(bs) && stream0@.data.skip(stream0@.pos) == #[trigger] record_text(bs) implies bs == B by { lemma_record_injective(bs, B); }
  assert(B.skip(0) =~= B);
}
@end
@loop 1
@inv pos: 0 <= stream@.pos <= stream@.data.len() 
@inv k: valid ==> 0 <= k <= B.len() && stream@.data.skip(stream@.pos) == record_text(B.skip(k)) && (good(stream@) || (k == B.len() && stream@.eof))
@inv record: valid ==> forall|x: CVec<(u32, u32)>| #[trigger] record@.contains(x) <==> record0@.contains(x) || B.take(k).contains(x)
@proof loop 1 top
let ghost s1 = stream@; let ghost r1 = record@;
proof {
  if valid && k < B.len() { assert(B.skip(k)[0] == B[k]); assert(B.skip(k).skip(1) =~= B.skip(k + 1)); lemma_record_line(s1.data, s1.pos, B.skip(k)); assert(block_ok(B[k]@)); }
}
@end
@proof loop 1 end
proof {
  if valid {
    assert(k < B.len());
    assert(block@ =~= B[k]@); assert(block.g@ == B[k].g@); assert(block.g == B[k].g); assert(block == B[k]);
    assert(B.take(k + 1) =~= B.take(k).push(B[k]));
    assert forall|x: CVec<(u32, u32)>| #[trigger] record@.contains(x) <==> record0@.contains(x) || B.take(k + 1).contains(x) by {
      if B.take(k).contains(x) { let i = choose|i: int| 0 <= i < k && B.take(k)[i] == x; assert(B.take(k + 1)[i] == x); }
      if x == B[k] { assert(B.take(k + 1)[k] == x); }
      if B.take(k + 1).contains(x) { let T = B.take(k + 1); let i = choose|i: int| 0 <= i < T.len() && #[trigger] T[i] == x; if i < k { assert(B.take(k)[i] == x); } }
    }
  }
  k = k + 1;
}
@end
@proof after loop 1
proof { if valid { if k < B.len() { lemma_record_line(stream@.data, stream@.pos, B.skip(k)); } assert(B.take(k) =~= B); } }
@end

@fn contains = FileStore::contains
@ensures done: res.ret == this0.initial_record@.contains(block0)
@fn open_store = FileStore::FileStore 1 ~ConfigNode
@ensures valid: res.this.valid_store == res.this.fs@.dirs.contains(config0.result_path@) && res.this.config == config0
@ensures record: res.this.valid_store && (forall|i: int| 0 <= i < listing(res.this.fs@, config0.result_path@).len() && is_rec_file(res.this.fs@, #[trigger] listing(res.this.fs@, config0.result_path@)[i]) ==> written(res.this.fs@, listing(res.this.fs@, config0.result_path@)[i])) ==> forall|k: CVec<(u32, u32)>| #[trigger] res.this.initial_record@.contains(k) <==> in_files(res.this.fs@, listing(res.this.fs@, config0.result_path@), k)
@ensures none: !res.this.valid_store ==> res.this.initial_record@ =~= Set::<CVec<(u32, u32)>>::empty()
@proof before loop 1
let ghost F = this.fs@; let ghost L = listing(F, config0.result_path@);
let ghost fine = forall|i: int| 0 <= i < L.len() && is_rec_file(F, #[trigger] L[i]) ==> written(F, L[i]);
let ghost mut n: int = 0;
@end
@loop 1
@inv frame: this.fs@ == F && this.config == config0 && this.valid_store && at_end(end_dir_iter)
@inv it: dir_iter.g@ == (L, n) && 0 <= n <= L.len()
@inv record: fine ==> forall|k: CVec<(u32, u32)>| #[trigger] this.initial_record@.contains(k) <==> in_files(F, L.take(n), k)
@proof loop 1 begin
let ghost R1 = this.initial_record@; let ghost p = L[n];
proof {
  assert(L.take(n + 1) =~= L.take(n).push(p));
  if fine && is_rec_file(F, p) { assert(written(F, p)); let bs = records_of(F, p); assert(blocks_ok(bs) && F.files[p].data == record_text(bs)); assert(F.files[p].data.skip(0) =~= F.files[p].data); }
  assert(Seq::<u8>::empty().push(46u8).push(104u8).push(121u8).push(99u8).push(117u8).push(95u8).push(114u8).push(101u8).push(99u8).push(111u8).push(114u8).push(100u8) =~= rec_ext());
  assert forall|k: CVec<(u32, u32)>| #[trigger] in_files(F, L.take(n + 1), k) <==> in_files(F, L.take(n), k) || (is_rec_file(F, p) && records_of(F, p).contains(k)) by {
    if in_files(F, L.take(n), k) { let i = choose|i: int| 0 <= i < L.take(n).len() && is_rec_file(F, #[trigger] L.take(n)[i]) && records_of(F, L.take(n)[i]).contains(k); assert(L.take(n + 1)[i] == L.take(n)[i]); }
    if is_rec_file(F, p) && records_of(F, p).contains(k) { assert(L.take(n + 1)[n] == p); }
    if in_files(F, L.take(n + 1), k) { let i = choose|i: int| 0 <= i < L.take(n + 1).len() && is_rec_file(F, #[trigger] L.take(n + 1)[i]) && records_of(F, L.take(n + 1)[i]).contains(k); if i < n { assert(L.take(n)[i] == L.take(n + 1)[i]); } }
  }
  n = n + 1;
}
@end
@proof after loop 1
proof { assert(L.take(n) =~= L); }
@end
