# files: a model of what the file system shows at every instant
@trusted boost::filesystem, std::fstream: contracts in contracts/fs.vc are assumed (a file that is written is complete only after a successful close; renaming is atomic; nobody else changes the directory)
@use stream.vc
@prelude
pub struct FileSt { pub data: Seq<u8>, pub complete: bool }
pub struct FsSt { pub files: Map<Seq<u8>, FileSt>, pub dirs: Set<Seq<u8>> }
pub struct Fs { pub g: Ghost<FsSt> }
impl Clone for Fs { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for Fs {}
impl Fs { pub open spec fn view(self) -> FsSt { self.g@ } }
pub struct DirIt { pub g: Ghost<(Seq<Seq<u8>>, int)> }
impl Clone for DirIt { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for DirIt {}
pub struct CRand { } pub struct CDist { }
impl Clone for CRand { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CRand {}
impl Clone for CDist { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CDist {}
#[verifier::external_body]
pub fn rand_new() -> CRand { unimplemented!() }
#[verifier::external_body]
pub fn dist_new() -> CDist { unimplemented!() }
#[verifier::external_body]
pub fn rand_draw() -> (r: i64) ensures r >= 0 { unimplemented!() }
pub open spec fn rec_ext() -> Seq<u8> { seq![46u8, 104, 121, 99, 117, 95, 114, 101, 99, 111, 114, 100] }
pub open spec fn sto_ext() -> Seq<u8> { seq![46u8, 104, 121, 99, 117, 95, 115, 116, 111, 114, 101] }
pub open spec fn ends_with(p: Seq<u8>, e: Seq<u8>) -> bool { p.len() >= e.len() && p.skip(p.len() - e.len()) == e }
// names of record and result files
pub open spec fn is_rec(p: Seq<u8>) -> bool { ends_with(p, rec_ext()) }
pub open spec fn is_sto(p: Seq<u8>) -> bool { ends_with(p, sto_ext()) }
// the result file of the same name
pub open spec fn store_of(p: Seq<u8>) -> Seq<u8> { p.take(p.len() - 12) + sto_ext() }
pub open spec fn done(f: FsSt, p: Seq<u8>) -> bool { f.files.contains_key(p) && f.files[p].complete }
// every record is a witness of a completely written result file
pub open spec fn safe(f: FsSt) -> bool { forall|p: Seq<u8>| is_rec(p) && #[trigger] f.files.contains_key(p) ==> done(f, p) && done(f, store_of(p)) }
// nothing that was there has been touched
pub open spec fn kept(f: FsSt, g: FsSt) -> bool { forall|p: Seq<u8>| (is_rec(p) || is_sto(p)) && #[trigger] f.files.contains_key(p) ==> g.files.contains_key(p) && g.files[p] == f.files[p] }
pub uninterp spec fn join_prefix(d: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn path_join(d: CVec<u8>, b: CVec<u8>) -> (r: CVec<u8>) ensures r@ == join_prefix(d@) + b@ { unimplemented!() }
pub uninterp spec fn ext_of(p: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn path_extension(p: CVec<u8>) -> (r: CVec<u8>) ensures (r@ == rec_ext()) == is_rec(p@), (r@ == sto_ext()) == is_sto(p@) { unimplemented!() }
#[verifier::external_body]
pub fn path_replace_extension(p: CVec<u8>, e: CVec<u8>) -> (r: CVec<u8>) ensures is_rec(p@) && e@ == sto_ext() ==> r@ == store_of(p@) { unimplemented!() }
// the parts of a name: nothing is known of them but that they depend on the name alone
pub uninterp spec fn name_part(k: int, p: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn name_has(k: int, p: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn path_part(Ghost(k): Ghost<int>, p: CVec<u8>) -> (r: CVec<u8>) ensures r@ == name_part(k, p@) { unimplemented!() }
#[verifier::external_body]
pub fn path_has(Ghost(k): Ghost<int>, p: CVec<u8>) -> (r: bool) ensures r == name_has(k, p@) { unimplemented!() }
#[verifier::external_body]
pub fn fs_size(f: Fs, p: CVec<u8>) -> (r: u64) ensures f@.files.contains_key(p@) ==> r == f@.files[p@].data.len() { unimplemented!() }
#[verifier::external_body]
pub fn fs_is_file(f: Fs, p: CVec<u8>) -> (r: bool) ensures r == f@.files.contains_key(p@) { unimplemented!() }
#[verifier::external_body]
pub fn fs_is_dir(f: Fs, p: CVec<u8>) -> (r: bool) ensures r == f@.dirs.contains(p@) { unimplemented!() }
#[verifier::external_body]
pub fn fs_exists(f: Fs, p: CVec<u8>) -> (r: bool) ensures r == (f@.dirs.contains(p@) || f@.files.contains_key(p@)) { unimplemented!() }
// opening a file for writing truncates it: never an existing record or result file, and a record must not be seen half written
#[verifier::external_body]
pub fn fs_open_out(f: Fs, p: CVec<u8>) -> (r: (Fs, CStream))
  requires !is_rec(p@), is_sto(p@) ==> !f@.files.contains_key(p@)
  ensures r.0@.dirs == f@.dirs, r.1@.app, r.1@.data == Seq::<u8>::empty(), r.1@.pos == 0, !r.1@.eof, r.1@.file == p@,
    r.1@.fail ==> r.0@ == f@,
    !r.1@.fail ==> exists|t: Seq<u8>| r.0@.files == #[trigger] f@.files.insert(p@, FileSt { data: t, complete: false }) { unimplemented!() }
#[verifier::external_body]
pub fn fs_close(f: Fs, s: CStream) -> (r: (Fs, CStream))
  requires s@.app, f@.files.contains_key(s@.file) && f@.files[s@.file].complete ==> s@.fail
  ensures r.0@.dirs == f@.dirs, r.1@ == (St { fail: r.1@.fail, ..s@ }), s@.fail ==> r.1@.fail && r.0@ == f@,
    !r.1@.fail ==> r.0@.files == f@.files.insert(s@.file, FileSt { data: s@.data, complete: true }),
    r.1@.fail ==> r.0@ == f@ || exists|t: Seq<u8>| r.0@.files == #[trigger] f@.files.insert(s@.file, FileSt { data: t, complete: false }) { unimplemented!() }
#[verifier::external_body]
pub fn fs_rename(f: Fs, a: CVec<u8>, b: CVec<u8>) -> (r: Fs)
  requires done(f@, a@), !f@.files.contains_key(b@), is_rec(b@) ==> done(f@, store_of(b@)), !is_rec(a@) && !is_sto(a@)
  ensures r@.dirs == f@.dirs, r@.files == f@.files.remove(a@).insert(b@, f@.files[a@]) { unimplemented!() }
#[verifier::external_body]
pub fn fs_open_in(f: Fs, p: CVec<u8>) -> (r: CStream) ensures f@.files.contains_key(p@) ==> r@ == reading(f@.files[p@].data), !f@.files.contains_key(p@) ==> r@ == (St { fail: true, ..reading(Seq::<u8>::empty()) }) { unimplemented!() }
// listing a directory: every entry once
pub uninterp spec fn listing(f: FsSt, d: Seq<u8>) -> Seq<Seq<u8>>;
#[verifier::external_body]
pub fn dir_open(f: Fs, d: CVec<u8>) -> (r: DirIt) requires f@.dirs.contains(d@) ensures r.g@ == (listing(f@, d@), 0int), listing(f@, d@).len() < 0x4000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn dir_end() -> (r: DirIt) ensures r.g@ == (Seq::<Seq<u8>>::empty(), 0int) { unimplemented!() }
pub open spec fn at_end(a: DirIt) -> bool { a.g@.1 >= a.g@.0.len() }
#[verifier::external_body]
pub fn dir_eq(a: DirIt, b: DirIt) -> (r: bool) ensures at_end(a) && at_end(b) ==> r, at_end(a) != at_end(b) ==> !r { unimplemented!() }
#[verifier::external_body]
pub fn dir_inc(a: DirIt) -> (r: DirIt) requires !at_end(a) ensures r.g@ == (a.g@.0, a.g@.1 + 1) { unimplemented!() }
#[verifier::external_body]
pub fn dir_at(a: DirIt) -> (r: CVec<u8>) requires 0 <= a.g@.1 < a.g@.0.len() ensures r@ == a.g@.0[a.g@.1] { unimplemented!() }
// every operation, whenever it is allowed, leaves every record a witness: so this holds at every instant of any sequence of operations
pub proof fn lemma_open_safe(f: FsSt, p: Seq<u8>, t: Seq<u8>)
  requires safe(f), !is_rec(p), is_sto(p) ==> !f.files.contains_key(p)
  ensures safe(FsSt { files: f.files.insert(p, FileSt { data: t, complete: false }), ..f })
{
  let g = FsSt { files: f.files.insert(p, FileSt { data: t, complete: false }), ..f };
  assert forall|q: Seq<u8>| is_rec(q) && #[trigger] g.files.contains_key(q) implies done(g, q) && done(g, store_of(q)) by { assert(f.files.contains_key(q)); lemma_names(q); }
}
pub proof fn lemma_close_safe(f: FsSt, p: Seq<u8>, x: FileSt)
  requires safe(f), !is_rec(p), x.complete || !done(f, p)
  ensures safe(FsSt { files: f.files.insert(p, x), ..f })
{
  let g = FsSt { files: f.files.insert(p, x), ..f };
  assert forall|q: Seq<u8>| is_rec(q) && #[trigger] g.files.contains_key(q) implies done(g, q) && done(g, store_of(q)) by { assert(f.files.contains_key(q)); lemma_names(q); }
}
pub proof fn lemma_rename_safe(f: FsSt, a: Seq<u8>, b: Seq<u8>)
  requires safe(f), done(f, a), !f.files.contains_key(b), is_rec(b) ==> done(f, store_of(b)), !is_rec(a) && !is_sto(a)
  ensures safe(FsSt { files: f.files.remove(a).insert(b, f.files[a]), ..f })
{
  let g = FsSt { files: f.files.remove(a).insert(b, f.files[a]), ..f };
  assert forall|q: Seq<u8>| is_rec(q) && #[trigger] g.files.contains_key(q) implies done(g, q) && done(g, store_of(q)) by { lemma_names(q); if q != b { assert(f.files.contains_key(q)); } }
}
pub proof fn lemma_names(q: Seq<u8>)
  requires is_rec(q)
  ensures is_sto(store_of(q)), !is_rec(store_of(q)), !is_sto(q)
{
  let s = store_of(q); let h = q.take(q.len() - 12);
  assert(s.skip(s.len() - 11) =~= sto_ext());
  assert(q.skip(q.len() - 12)[11] == q[q.len() - 1]); assert(rec_ext()[11] == 100u8); assert(sto_ext()[10] == 101u8);
  assert(s[s.len() - 1] == 101u8) by { assert(s.skip(s.len() - 11)[10] == s[s.len() - 1]); }
  if is_rec(s) { assert(s.skip(s.len() - 12)[11] == s[s.len() - 1]); }
  if is_sto(q) { assert(q.skip(q.len() - 11)[10] == q[q.len() - 1]); }
}
pub proof fn lemma_tail_of(h: Seq<u8>, e: Seq<u8>)
  ensures (h + e).skip(h.len() as int) == e, (h + e).take(h.len() as int) == h
{ assert((h + e).skip(h.len() as int) =~= e); assert((h + e).take(h.len() as int) =~= h); }
pub proof fn lemma_name(d: Seq<u8>, id: Seq<u8>)
  ensures is_rec(d + (id + rec_ext())), is_sto(d + (id + sto_ext())), store_of(d + (id + rec_ext())) == d + (id + sto_ext())
{
  let r = d + (id + rec_ext()); let s = d + (id + sto_ext());
  let n = (d.len() + id.len()) as int; let h = d + id;
  assert(rec_ext().len() == 12 && sto_ext().len() == 11);
  lemma_tail_of(h, rec_ext()); lemma_tail_of(h, sto_ext());
  assert(r =~= h + rec_ext()); assert(s =~= h + sto_ext());
}
pub open spec fn tmp_ext() -> Seq<u8> { seq![46u8, 116, 109, 112] }
pub proof fn lemma_tail(p: Seq<u8>, c: u8)
  requires p.len() > 0, p[p.len() - 1] == c, c != 100, c != 101
  ensures !is_rec(p), !is_sto(p)
{
  if is_rec(p) { assert(p.skip(p.len() - 12)[11] == p[p.len() - 1]); assert(rec_ext()[11] == 100u8); }
  if is_sto(p) { assert(p.skip(p.len() - 11)[10] == p[p.len() - 1]); assert(sto_ext()[10] == 101u8); }
}
@end
