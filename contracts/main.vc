# the threaded program: a run works off every configured family (C22)
@tu src/executables/threaded.cc src/curve_iterator.cc src/block_iterator.cc src/fq_element_table.cc src/reduction_table.cc src/config/config_node.cc
@use runs.vc
@fn prepend = ConfigNode::prepend_output_path
@ensures path: res.this.result_path@ == join_prefix(output_path0@) + this0.result_path@
@ensures frame: res.this == (ConfigNode { result_path: res.this.result_path, ..this0 })
@fn run = main
@requires fresh: run0@.segs.len() == 0
@requires fits: forall|i: int, c: ConfigNode| 0 <= i < families().len() && #[trigger] placed(families()[i], c) && usable(c) ==> size_ok(c.prime as int, c.prime_exponent as int) && c.prime % 2 == 1 && c.genus <= 0x3fff_fff0
@ensures order: res.run@.segs.len() <= families().len() && forall|i: int| 0 <= i < res.run@.segs.len() ==> placed(families()[i], (#[trigger] res.run@.segs[i]).0) && usable(res.run@.segs[i].0)
@ensures tiled: forall|i: int| 0 <= i < res.run@.segs.len() ==> tiled((#[trigger] res.run@.segs[i]).0, res.run@.segs[i].1)
@ensures all: res.ret == 0 && !opt_has(k_help()) ==> res.run@.segs.len() == families().len()
@ensures works: startable() && (forall|i: int, c: ConfigNode| 0 <= i < families().len() && #[trigger] placed(families()[i], c) ==> usable(c)) ==> res.ret == 0
@proof begin
  proof {
    lemma_keys();
    assert(Seq::<u8>::empty().push(104u8).push(101u8).push(108u8).push(112u8) =~= k_help());
    assert(Seq::<u8>::empty().push(99u8).push(111u8).push(110u8).push(102u8).push(105u8).push(103u8).push(45u8).push(102u8).push(105u8).push(108u8).push(101u8) =~= k_config());
    assert(Seq::<u8>::empty().push(111u8).push(117u8).push(116u8).push(112u8).push(117u8).push(116u8).push(45u8).push(112u8).push(97u8).push(116u8).push(104u8) =~= k_output());
    assert(Seq::<u8>::empty().push(83u8).push(116u8).push(111u8).push(114u8).push(101u8).push(84u8).push(121u8).push(112u8).push(101u8) =~= k_StoreType());
    assert(Seq::<u8>::empty().push(69u8).push(67u8) =~= k_EC());
    assert(Seq::<u8>::empty().push(77u8).push(111u8).push(100u8).push(117u8).push(108u8).push(105u8) =~= k_Moduli());
  }
  let ghost F = families();
@end
@loop 1
@inv read: it1 <= keys1@.len() && config@.len() == it1 && run == run0 && keys1@.len() == families().len()
@inv nodes: forall|i: int| 0 <= i < it1 ==> read_as(families()[i], #[trigger] config@[i])
@proof loop 1 endinc
  proof {
    assert(keys1@[it1 - 1]@ == families()[it1 - 1]);
    assert(read_as(families()[it1 - 1], config@[it1 - 1]));
  }
@end
@proof before loop 2
  proof { assert(config@.len() == families().len()); assert forall|i: int| 0 <= i < config@.len() implies read_as(families()[i], #[trigger] config@[i]) by { } }
@end
@loop 2
@inv read: it2 <= config@.len() && config@.len() == families().len() && run@.segs.len() == it2 && output_path@ == opt_text(k_output()) && !opt_has(k_help()) && startable()
@inv nodes: forall|i: int| it2 <= i < config@.len() ==> read_as(families()[i], #[trigger] config@[i])
@inv order: forall|i: int| 0 <= i < it2 ==> placed(families()[i], (#[trigger] run@.segs[i]).0) && usable(run@.segs[i].0)
@inv tiled: forall|i: int| 0 <= i < it2 ==> tiled((#[trigger] run@.segs[i]).0, run@.segs[i].1)
@proof after prepend
  let ghost cfg = $r.this;
  proof { lemma_keys(); assert(placed(families()[it2 as int], cfg)); }
@end
@proof after ci_ctor
  let ghost es = $r.this.enumerators@; let ghost before = run@.segs.drop_last();
  let ghost mut w: Seq<(int, Seq<u32>)> = seq![(0int, if es.len() > 0 { es[0].position@ } else { Seq::<u32>::empty() })];
  let ghost mut bs = Seq::<Box>::empty();
  proof { assert forall|e: int| 0 <= e < es.len() implies simple(#[trigger] es[e]) by { assert(enum_start(es[e], 2 * cfg.genus + 3, cfg.package_size as int)); } }
@end
@loop 3
@inv segs: run@.segs =~= before.push((cfg, bs)) && before.len() == it2 && usable(cfg) && placed(families()[it2 as int], cfg) && config@[it2 as int] == cfg
@inv kept: ({ forall|i: int| 0 <= i < it2 ==> placed(families()[i], (#[trigger] before[i]).0) && usable(before[i].0) && tiled(before[i].0, before[i].1) })
@inv iter: ci_inv(iter) && sound(es) && same_families(es, iter.enumerators@)
@inv ahead: forall|e: int| iter.enumerator_it < e < es.len() ==> iter.enumerators@[e] == es[e]
@inv walk: walk(es, w) && boxes(es, w, bs) && w.last().0 == iter.enumerator_it && (iter.enumerator_it < es.len() ==> w.last().1 == iter.enumerators@[iter.enumerator_it as int].position@)
@inv covers: covers(es, cfg.prime as int, pow(cfg.prime as int, cfg.prime_exponent as nat), 2 * cfg.genus + 1, 2 * cfg.genus + (if cfg.with_marked_point { 2int } else { 3int }))
@proof after ci_as_block
  let ghost x = $r.ret@; let ghost at = iter.enumerator_it as int; let ghost old_es = iter.enumerators@;
  proof { lemma_box_same(es[at], old_es[at], w.last().1, x); }
@end
@proof after ci_step
  let ghost nw = ($r.this.enumerator_it as int, if $r.this.enumerator_it < es.len() { $r.this.enumerators@[$r.this.enumerator_it as int].position@ } else { Seq::<u32>::empty() });
  proof {
    lemma_next_same(es, old_es, at, w.last().1, nw.0, nw.1);
    assert(ci_hop(es, w.last().0, w.last().1, nw));
    assert forall|i: int| 0 <= i < w.push(nw).len() - 1 implies #[trigger] ci_hop(es, w.push(nw)[i].0, w.push(nw)[i].1, w.push(nw)[i + 1]) by { if i < w.len() - 1 { assert(ci_hop(es, w[i].0, w[i].1, w[i + 1])); } }
    assert forall|e: int| 0 <= e < es.len() implies bi_same(#[trigger] es[e], $r.this.enumerators@[e]) by { assert(bi_same(old_es[e], $r.this.enumerators@[e])); }
    w = w.push(nw); bs = bs.push(x);
  }
@end
@proof after loop 3
  proof { lemma_tiled(cfg, es, w, bs); }
@end
