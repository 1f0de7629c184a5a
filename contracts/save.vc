# Saving results: a record file is a witness of a completely written result file (C14)
@tu src/store/file_store.cc
@use fs.vc
@prelude
// a file of the directory d
pub open spec fn in_dir(p: Seq<u8>, d: Seq<u8>) -> bool { exists|b: Seq<u8>| p == #[trigger] (join_prefix(d) + b) }
@end
@fn new_filenames = FileStore::new_filenames
@ensures frame: res.this == this0
@ensures fresh: !this0.fs@.files.contains_key(res.ret.0@) && !this0.fs@.files.contains_key(res.ret.1@)
@ensures names: is_rec(res.ret.0@) && res.ret.1@ == store_of(res.ret.0@)
@ensures directory: in_dir(res.ret.0@, this0.config.result_path@)
@loop 1
@inv frame: this == this0
@proof return 1
proof {
  let d = join_prefix(this0.config.result_path@); let id = id_ss@.data;
  assert(Seq::<u8>::empty() + id =~= id); assert((Seq::<u8>::empty() + id) + rec_ext() =~= id + rec_ext()); 
  assert(filename_record_ss@.data =~= id + rec_ext());
  assert(filename_store_ss@.data =~= id + sto_ext());
  lemma_name(d, id);
}
@end

@fn save = FileStore::save
@requires safe: safe(this0.fs@)
@ensures witness: safe(res.this.fs@)
@ensures kept: kept(this0.fs@, res.this.fs@)
@ensures results: forall|p: Seq<u8>| is_rec(p) && #[trigger] res.this.fs@.files.contains_key(p) && !this0.fs@.files.contains_key(p) ==> res.this.fs@.files[p].data == record_store0.0@ && res.this.fs@.files[store_of(p)].data == record_store0.1@ && in_dir(p, this0.config.result_path@)
@ensures frame: res.this.config == this0.config && res.this.initial_record == this0.initial_record && res.this.valid_store == this0.valid_store
@proof begin
let ghost F = this0.fs@;
@end
@proof after new_filenames
proof {
  lemma_names($r.ret.0@);
  let q = $r.ret.0@ + tmp_ext();
  assert(q[q.len() - 1] == tmp_ext()[3]); lemma_tail(q, 112);
  assert(q =~= $r.ret.0@ + Seq::<u8>::empty().push(46u8).push(116u8).push(109u8).push(112u8));
}
@end
@proof return
proof {
  assert(Seq::<u8>::empty() + record_store0.0@ =~= record_store0.0@); assert(Seq::<u8>::empty() + record_store0.1@ =~= record_store0.1@);
  let G = this.fs@;
  assert forall|q: Seq<u8>| is_rec(q) && #[trigger] G.files.contains_key(q) implies done(G, q) && done(G, store_of(q)) by { lemma_names(q); }
}
@end
