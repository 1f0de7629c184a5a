# Merging result files (C11), whose record is a witness of a completely written result file (C14)
@tu src/executables/merger.cc src/store/file_store.cc src/store/store.cc src/store/curve_data.cc src/store/store_data.cc
@use popt.vc
@use records.vc
@use text.vc
@prelude
pub type Key = ExplicitRamificationHasseWeil_ValueType;
// the lines of a result file
pub open spec fn lines_in(f: FsSt, p: Seq<u8>) -> Seq<Line> { choose|ls: Seq<Line>| lines_ok(ls) && f.files[p].data == #[trigger] lines_text(ls) }
pub open spec fn has_lines(f: FsSt, p: Seq<u8>) -> bool { f.files.contains_key(p) && exists|ls: Seq<Line>| lines_ok(ls) && f.files[p].data == #[trigger] lines_text(ls) }
pub open spec fn results_of(f: FsSt, p: Seq<u8>) -> Seq<Line> { lines_in(f, store_of(p)) }
// what the files of list l say together about key k
pub open spec fn total(f: FsSt, l: Seq<CVec<u8>>, k: Key) -> int decreases l.len() { if l.len() == 0 { 0 } else { total(f, l.drop_last(), k) + if is_rec_file(f, l.last()@) { sum_of(results_of(f, l.last()@), k) } else { 0 } } }
pub open spec fn mentioned(f: FsSt, l: Seq<CVec<u8>>, k: Key) -> bool { exists|i: int| 0 <= i < l.len() && is_rec_file(f, (#[trigger] l[i])@) && mentions(results_of(f, l[i]@), k) }
pub open spec fn recorded(f: FsSt, l: Seq<CVec<u8>>, b: CVec<(u32, u32)>) -> bool { exists|i: int| 0 <= i < l.len() && is_rec_file(f, (#[trigger] l[i])@) && records_of(f, l[i]@).contains(b) }
// records and results have been written by saves
pub open spec fn fine(f: FsSt, l: Seq<CVec<u8>>) -> bool { forall|i: int| 0 <= i < l.len() && is_rec_file(f, (#[trigger] l[i])@) ==> written(f, l[i]@) && (f.files.contains_key(store_of(l[i]@)) ==> has_lines(f, store_of(l[i]@))) }
// the text of a result file that says the sums, the text of a record that lists the blocks
pub open spec fn totals(f: FsSt, l: Seq<CVec<u8>>, t: Seq<u8>) -> bool { exists|m: Map<Key, Count_ValueType>| #[trigger] is_store_text(t, m) && (forall|k: Key| count_at(m, k) == #[trigger] total(f, l, k)) && (forall|k: Key| #[trigger] m.dom().contains(k) <==> mentioned(f, l, k)) }
pub open spec fn witnesses(f: FsSt, l: Seq<CVec<u8>>, t: Seq<u8>) -> bool { exists|bs: Seq<CVec<(u32, u32)>>| t == #[trigger] record_text(bs) && forall|b: CVec<(u32, u32)>| #[trigger] bs.contains(b) <==> recorded(f, l, b) }
pub proof fn lemma_exts()
  ensures Seq::<u8>::empty().push(46u8).push(104u8).push(121u8).push(99u8).push(117u8).push(95u8).push(114u8).push(101u8).push(99u8).push(111u8).push(114u8).push(100u8) == rec_ext(),
    Seq::<u8>::empty().push(46u8).push(104u8).push(121u8).push(99u8).push(117u8).push(95u8).push(115u8).push(116u8).push(111u8).push(114u8).push(101u8) == sto_ext()
{
  assert(Seq::<u8>::empty().push(46u8).push(104u8).push(121u8).push(99u8).push(117u8).push(95u8).push(114u8).push(101u8).push(99u8).push(111u8).push(114u8).push(100u8) =~= rec_ext());
  assert(Seq::<u8>::empty().push(46u8).push(104u8).push(121u8).push(99u8).push(117u8).push(95u8).push(115u8).push(116u8).push(111u8).push(114u8).push(101u8) =~= sto_ext());
}
// what is written to an empty file
pub proof fn lemma_empty_put()
  ensures forall|t: Seq<u8>| #[trigger] (Seq::<u8>::empty() + t) == t
{ assert forall|t: Seq<u8>| #[trigger] (Seq::<u8>::empty() + t) == t by { assert(Seq::<u8>::empty() + t =~= t); } }
// one more file
pub proof fn lemma_next(f: FsSt, l: Seq<CVec<u8>>, n: int)
  requires 0 <= n < l.len()
  ensures forall|k: Key| #[trigger] total(f, l.take(n + 1), k) == total(f, l.take(n), k) + if is_rec_file(f, l[n]@) { sum_of(results_of(f, l[n]@), k) } else { 0 },
    forall|k: Key| #[trigger] mentioned(f, l.take(n + 1), k) <==> mentioned(f, l.take(n), k) || (is_rec_file(f, l[n]@) && mentions(results_of(f, l[n]@), k)),
    forall|b: CVec<(u32, u32)>| #[trigger] recorded(f, l.take(n + 1), b) <==> recorded(f, l.take(n), b) || (is_rec_file(f, l[n]@) && records_of(f, l[n]@).contains(b))
{
  let a = l.take(n); let t = l.take(n + 1);
  assert(t.drop_last() =~= a); assert(t.last() == l[n]); assert(t[n] == l[n]);
  assert forall|k: Key| #[trigger] mentioned(f, t, k) <==> mentioned(f, a, k) || (is_rec_file(f, l[n]@) && mentions(results_of(f, l[n]@), k)) by {
    if mentioned(f, a, k) { let i = choose|i: int| 0 <= i < a.len() && is_rec_file(f, (#[trigger] a[i])@) && mentions(results_of(f, a[i]@), k); assert(t[i] == a[i]); }
    if mentioned(f, t, k) { let i = choose|i: int| 0 <= i < t.len() && is_rec_file(f, (#[trigger] t[i])@) && mentions(results_of(f, t[i]@), k); if i < n { assert(a[i] == t[i]); } }
  }
  assert forall|b: CVec<(u32, u32)>| #[trigger] recorded(f, t, b) <==> recorded(f, a, b) || (is_rec_file(f, l[n]@) && records_of(f, l[n]@).contains(b)) by {
    if recorded(f, a, b) { let i = choose|i: int| 0 <= i < a.len() && is_rec_file(f, (#[trigger] a[i])@) && records_of(f, a[i]@).contains(b); assert(t[i] == a[i]); }
    if recorded(f, t, b) { let i = choose|i: int| 0 <= i < t.len() && is_rec_file(f, (#[trigger] t[i])@) && records_of(f, t[i]@).contains(b); if i < n { assert(a[i] == t[i]); } }
  }
}
// the rest of a listing is put behind v
#[verifier::external_body]
pub fn dir_append(v: CVec<CVec<u8>>, a: DirIt) -> (r: CVec<CVec<u8>>) requires !at_end(a) || a.g@.1 == a.g@.0.len() ensures r@.len() == v@.len() + a.g@.0.len() - a.g@.1, r@.take(v@.len() as int) == v@, forall|i: int| 0 <= i < a.g@.0.len() - a.g@.1 ==> (#[trigger] r@[v@.len() + i])@ == a.g@.0[a.g@.1 + i] { unimplemented!() }
pub open spec fn k_input() -> Seq<u8> { seq![105u8, 110u8, 112u8, 117u8, 116u8, 45u8, 112u8, 97u8, 116u8, 104u8] }
pub open spec fn k_output_file() -> Seq<u8> { seq![111u8, 117u8, 116u8, 112u8, 117u8, 116u8, 45u8, 102u8, 105u8, 108u8, 101u8] }
pub open spec fn out_record() -> Seq<u8> { opt_text(k_output_file()) + rec_ext() }
pub open spec fn out_store() -> Seq<u8> { opt_text(k_output_file()) + sto_ext() }
// the files of the folder, each once
pub open spec fn lists(f: FsSt, l: Seq<CVec<u8>>) -> bool { let d = listing(f, opt_text(k_input())); l.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] l[i])@ == d[i] }
pub open spec fn merged(f: FsSt, g: FsSt, l: Seq<CVec<u8>>) -> bool {
  &&& forall|i: int| 0 <= i < l.len() && is_rec_file(f, (#[trigger] l[i])@) ==> f.files.contains_key(store_of(l[i]@))
  &&& fine(f, l) ==> done(g, out_store()) && totals(f, l, g.files[out_store()].data) && done(g, out_record()) && witnesses(f, l, g.files[out_record()].data)
}
@end
@fn merge = merge
@requires safe: safe(fs0@)
@requires output: is_rec(record_output_file0@) && store_output_file0@ == store_of(record_output_file0@) && !fs0@.files.contains_key(record_output_file0@) && !fs0@.files.contains_key(store_output_file0@)
@ensures witness: safe(res.fs@)
@ensures kept: kept(fs0@, res.fs@)
@ensures complete: res.ret == 0 ==> forall|i: int| 0 <= i < input_files0@.len() && is_rec_file(fs0@, (#[trigger] input_files0@[i])@) ==> fs0@.files.contains_key(store_of(input_files0@[i]@))
@ensures results: res.ret == 0 && fine(fs0@, input_files0@) ==> done(res.fs@, store_output_file0@) && totals(fs0@, input_files0@, res.fs@.files[store_output_file0@].data)
@ensures record: res.ret == 0 && fine(fs0@, input_files0@) ==> done(res.fs@, record_output_file0@) && witnesses(fs0@, input_files0@, res.fs@.files[record_output_file0@].data)
@proof begin
let ghost F = fs0@; let ghost L = input_files0@; let ghost ok = fine(F, L);
let ghost mut T = Seq::<u8>::empty(); let ghost mut RS = Seq::<CVec<(u32, u32)>>::empty(); let ghost mut RT = Seq::<u8>::empty();
@end
@loop 1
@inv same: fs == fs0 && input_files == input_files0 && record_output_file == record_output_file0 && store_output_file == store_output_file0
@inv it: 0 <= it1 <= L.len()
@inv complete: forall|i: int| 0 <= i < it1 && is_rec_file(F, (#[trigger] L[i])@) ==> F.files.contains_key(store_of(L[i]@))
@inv counts: ok ==> forall|k: Key| count_at(store.store@, k) == #[trigger] total(F, L.take(it1 as int), k)
@inv keys: ok ==> forall|k: Key| #[trigger] store.store@.dom().contains(k) <==> mentioned(F, L.take(it1 as int), k)
@inv record: ok ==> forall|b: CVec<(u32, u32)>| #[trigger] record@.contains(b) <==> recorded(F, L.take(it1 as int), b)
@decreases L.len() - it1
@proof loop 1 begin
proof { lemma_next(F, L, it1 as int); lemma_exts(); 
  let p = L[it1 as int]@;
  if ok && is_rec_file(F, p) {
    assert(written(F, p)); let bs = records_of(F, p); assert(blocks_ok(bs) && F.files[p].data == record_text(bs)); assert(F.files[p].data.skip(0) =~= F.files[p].data);
    let q = store_of(p);
    if F.files.contains_key(q) { assert(has_lines(F, q)); let ls = lines_in(F, q); assert(lines_ok(ls) && F.files[q].data == lines_text(ls)); assert(F.files[q].data.skip(0) =~= F.files[q].data); }
  }
}
@end
@proof after loop 1
proof { assert(L.take(it1 as int) =~= L); lemma_names(record_output_file0@);
  let q = record_output_file0@ + tmp_ext();
  assert(q[q.len() - 1] == tmp_ext()[3]); lemma_tail(q, 112);
  assert(q =~= record_output_file0@ + Seq::<u8>::empty().push(46u8).push(116u8).push(109u8).push(112u8));
}
@end
@proof return
proof {
  let G = fs@;
  assert forall|q: Seq<u8>| is_rec(q) && #[trigger] G.files.contains_key(q) implies done(G, q) && done(G, store_of(q)) by { lemma_names(q); }
  if ret == 0 && ok {
    let m = store.store@;
    assert(G.files[store_output_file0@].data == T);
    assert(is_store_text(T, m));
    assert forall|k: Key| count_at(m, k) == #[trigger] total(F, L, k) by { assert(count_at(m, k) == total(F, L.take(it1 as int), k)); }
    assert forall|k: Key| #[trigger] m.dom().contains(k) <==> mentioned(F, L, k) by { }
    assert(totals(F, L, T));
    assert(G.files[record_output_file0@].data == record_text(RS));
    assert forall|b: CVec<(u32, u32)>| #[trigger] RS.contains(b) <==> recorded(F, L, b) by { assert(record@.contains(b) <==> RS.contains(b)); }
    assert(witnesses(F, L, RT));
  }
}
@end
@proof after put_store
proof { lemma_empty_put(); T = choose|t: Seq<u8>| #[trigger] is_store_text(t, store.store@) && (good($r.stream@) ==> $r.stream@.data == t); }
@end
@proof after insert_record
proof { lemma_empty_put(); RS = choose|bs: Seq<CVec<(u32, u32)>>| members(bs, record@) && (good($r.stream@) ==> $r.stream@.data == #[trigger] record_text(bs)); RT = record_text(RS); }
@end
@fn merge_main = main
@requires safe: safe(fs0@)
@requires output: !fs0@.files.contains_key(out_record()) && !fs0@.files.contains_key(out_store())
@ensures witness: safe(res.fs@)
@ensures kept: kept(fs0@, res.fs@)
@ensures merged: res.ret == 0 && !opt_has(k_help()) ==> exists|l: Seq<CVec<u8>>| lists(fs0@, l) && #[trigger] merged(fs0@, res.fs@, l)
@proof begin
  proof {
    lemma_exts();
    assert(Seq::<u8>::empty().push(104u8).push(101u8).push(108u8).push(112u8) =~= k_help());
    assert(Seq::<u8>::empty().push(105u8).push(110u8).push(112u8).push(117u8).push(116u8).push(45u8).push(112u8).push(97u8).push(116u8).push(104u8) =~= k_input());
    assert(Seq::<u8>::empty().push(111u8).push(117u8).push(116u8).push(112u8).push(117u8).push(116u8).push(45u8).push(102u8).push(105u8).push(108u8).push(101u8) =~= k_output_file());
    lemma_tail_of(opt_text(k_output_file()), rec_ext()); lemma_tail_of(opt_text(k_output_file()), sto_ext());
    assert(rec_ext().len() == 12 && sto_ext().len() == 11);
  }
@end
@proof after merge
  proof {
    if $r.ret == 0 {
      assert(store_output_file@ =~= out_store()); assert(record_output_file@ =~= out_record());
      assert(lists(fs0@, input_files@)) by { assert forall|i: int| 0 <= i < listing(fs0@, opt_text(k_input())).len() implies (#[trigger] input_files@[i])@ == listing(fs0@, opt_text(k_input()))[i] by { assert(input_files@[0 + i]@ == listing(fs0@, opt_text(k_input()))[i]); } }
      assert(merged(fs0@, $r.fs@, input_files@));
    }
  }
@end
