# Nodes, blocks and results travel between processes (C18)
@trusted boost::mpi archives: parts are transmitted in order, a part of the same type is read back unchanged; vectors are transmitted element by element (contracts in contracts/serialize.vc)
@tu verif:contracts/inst_serialize.cc
@prelude
pub enum Part { U32(u32), I32(i32), U64(u64), I64(i64), U8(u8), B(bool), S(Seq<u8>) }
pub struct OArch { pub g: Ghost<Seq<Part>> }
impl Clone for OArch { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for OArch {}
impl OArch { pub open spec fn view(self) -> Seq<Part> { self.g@ } }
pub struct IArch { pub g: Ghost<Seq<Part>> }
impl Clone for IArch { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for IArch {}
impl IArch { pub open spec fn view(self) -> Seq<Part> { self.g@ } }
#[verifier::external_body]
pub fn ar_put_u32(a: OArch, x: u32) -> (r: OArch) ensures r@ == a@.push(Part::U32(x)) { unimplemented!() }
#[verifier::external_body]
pub fn ar_get_u32(a: IArch) -> (r: (IArch, u32)) ensures a@.len() > 0 && a@[0] is U32 ==> r.0@ == a@.skip(1) && r.1 == a@[0]->U32_0 { unimplemented!() }
#[verifier::external_body]
pub fn ar_put_i32(a: OArch, x: i32) -> (r: OArch) ensures r@ == a@.push(Part::I32(x)) { unimplemented!() }
#[verifier::external_body]
pub fn ar_get_i32(a: IArch) -> (r: (IArch, i32)) ensures a@.len() > 0 && a@[0] is I32 ==> r.0@ == a@.skip(1) && r.1 == a@[0]->I32_0 { unimplemented!() }
#[verifier::external_body]
pub fn ar_put_u64(a: OArch, x: u64) -> (r: OArch) ensures r@ == a@.push(Part::U64(x)) { unimplemented!() }
#[verifier::external_body]
pub fn ar_get_u64(a: IArch) -> (r: (IArch, u64)) ensures a@.len() > 0 && a@[0] is U64 ==> r.0@ == a@.skip(1) && r.1 == a@[0]->U64_0 { unimplemented!() }
#[verifier::external_body]
pub fn ar_put_i64(a: OArch, x: i64) -> (r: OArch) ensures r@ == a@.push(Part::I64(x)) { unimplemented!() }
#[verifier::external_body]
pub fn ar_get_i64(a: IArch) -> (r: (IArch, i64)) ensures a@.len() > 0 && a@[0] is I64 ==> r.0@ == a@.skip(1) && r.1 == a@[0]->I64_0 { unimplemented!() }
#[verifier::external_body]
pub fn ar_put_bool(a: OArch, x: bool) -> (r: OArch) ensures r@ == a@.push(Part::B(x)) { unimplemented!() }
#[verifier::external_body]
pub fn ar_get_bool(a: IArch) -> (r: (IArch, bool)) ensures a@.len() > 0 && a@[0] is B ==> r.0@ == a@.skip(1) && r.1 == a@[0]->B_0 { unimplemented!() }
#[verifier::external_body]
pub fn ar_put_str(a: OArch, x: CVec<u8>) -> (r: OArch) ensures r@ == a@.push(Part::S(x@)) { unimplemented!() }
#[verifier::external_body]
pub fn ar_get_str(a: IArch) -> (r: (IArch, CVec<u8>)) ensures a@.len() > 0 && a@[0] is S ==> r.0@ == a@.skip(1) && r.1@ == a@[0]->S_0 { unimplemented!() }
#[verifier::external_body]
pub fn ar_put_u8(a: OArch, x: u8) -> (r: OArch) ensures r@ == a@.push(Part::U8(x)) { unimplemented!() }
#[verifier::external_body]
pub fn ar_get_u8(a: IArch) -> (r: (IArch, u8)) ensures a@.len() > 0 && a@[0] is U8 ==> r.0@ == a@.skip(1) && r.1 == a@[0]->U8_0 { unimplemented!() }
pub open spec fn node_parts(c: ConfigNode) -> Seq<Part> { seq![Part::U32(c.prime), Part::U32(c.prime_exponent), Part::U32(c.genus), Part::B(c.with_marked_point), Part::U32(c.count_exponent), Part::S(c.result_path@), Part::U32(c.package_size)] }
pub open spec fn same_node(a: ConfigNode, b: ConfigNode) -> bool { a.prime == b.prime && a.prime_exponent == b.prime_exponent && a.genus == b.genus && a.with_marked_point == b.with_marked_point && a.count_exponent == b.count_exponent && a.result_path@ == b.result_path@ && a.package_size == b.package_size }
pub open spec fn starts(s: Seq<Part>, t: Seq<Part>) -> bool { s.len() >= t.len() && forall|i: int| 0 <= i < t.len() ==> s[i] == #[trigger] t[i] }
pub open spec fn bound_parts(x: (u32, u32)) -> Seq<Part> { seq![Part::U32(x.1), Part::U32(x.0)] }
pub open spec fn bound_parts1(x: (u32, u32)) -> Seq<Part> { seq![Part::U32(x.0)] }
pub open spec fn text_parts(x: (CVec<u8>, CVec<u8>)) -> Seq<Part> { seq![Part::S(x.1@), Part::S(x.0@)] }
pub open spec fn text_parts1(x: (CVec<u8>, CVec<u8>)) -> Seq<Part> { seq![Part::S(x.0@)] }
@end
@fn save_node = boost::serialization::serialize 3 ~packed_oarchive &,struct ConfigNode
@ensures parts: res.ar@ =~= ar0@ + node_parts(config0)
@ensures kept: res.config == config0
@fn load_node = boost::serialization::serialize 3 ~packed_iarchive &,struct ConfigNode
@ensures node: forall|c: ConfigNode| starts(ar0@, #[trigger] node_parts(c)) ==> same_node(res.config, c) && res.ar@ =~= ar0@.skip(7)
@proof begin
let ghost valid = exists|c: ConfigNode| starts(ar0@, #[trigger] node_parts(c)); let ghost C = choose|c: ConfigNode| starts(ar0@, #[trigger] node_parts(c));
proof {
  if valid { let t = node_parts(C); assert(starts(ar0@, t)); assert(ar0@[0] == t[0] && ar0@[1] == t[1] && ar0@[2] == t[2] && ar0@[3] == t[3] && ar0@[4] == t[4] && ar0@[5] == t[5] && ar0@[6] == t[6]); }
  assert forall|c: ConfigNode| starts(ar0@, #[trigger] node_parts(c)) implies same_node(c, C) by { let s = node_parts(c); assert(starts(ar0@, s)); assert(ar0@[0] == s[0] && ar0@[1] == s[1] && ar0@[2] == s[2] && ar0@[3] == s[3] && ar0@[4] == s[4] && ar0@[5] == s[5] && ar0@[6] == s[6]); }
}
@end
@fn save_bound2 = boost::serialization::Serializer::serialize 3 ~Serializer<2>.*packed_oarchive &.*unsigned int, unsigned int
@ensures parts: res.ar@ =~= ar0@ + bound_parts(a0) && res.a == a0
@fn save_bound1 = boost::serialization::Serializer::serialize 3 ~Serializer<1>.*packed_oarchive &.*unsigned int, unsigned int
@ensures parts: res.ar@ =~= ar0@ + bound_parts1(a0) && res.a == a0
@fn save_bound0 = boost::serialization::Serializer::serialize 3 ~Serializer<0>.*packed_oarchive &.*unsigned int, unsigned int
@ensures parts: res.ar == ar0 && res.a == a0
@fn save_bound = boost::serialization::serialize 3 ~packed_oarchive &,class std::tuple.*unsigned int, unsigned int
@ensures parts: res.ar@ =~= ar0@ + bound_parts(a0) && res.a == a0
@fn load_bound2 = boost::serialization::Serializer::serialize 3 ~Serializer<2>.*packed_iarchive &.*unsigned int, unsigned int
@ensures tuple: forall|x: (u32, u32)| starts(ar0@, #[trigger] bound_parts(x)) ==> res.a.0 == x.0 && res.a.1 == x.1 && res.ar@ =~= ar0@.skip(2)
@proof begin
let ghost X = choose|x: (u32, u32)| starts(ar0@, #[trigger] bound_parts(x));
proof { assert forall|x: (u32, u32)| starts(ar0@, #[trigger] bound_parts(x)) implies x.0 == X.0 && x.1 == X.1 && ar0@[0] == Part::U32(x.1) && ar0@[1] == Part::U32(x.0) && starts(ar0@.skip(1), bound_parts1(x)) by { let s = bound_parts(x); let t = bound_parts(X); assert(ar0@[0] == s[0] && ar0@[1] == s[1] && ar0@[0] == t[0] && ar0@[1] == t[1]); assert(ar0@.skip(1)[0] == ar0@[1]); assert(bound_parts1(x)[0] == s[1]); } }
@end
@fn load_bound1 = boost::serialization::Serializer::serialize 3 ~Serializer<1>.*packed_iarchive &.*unsigned int, unsigned int
@ensures tuple: forall|x: (u32, u32)| starts(ar0@, #[trigger] bound_parts1(x)) ==> res.a.0 == x.0 && res.ar@ =~= ar0@.skip(1)
@ensures kept: res.a.1 == a0.1
@proof begin
proof { assert forall|x: (u32, u32)| starts(ar0@, #[trigger] bound_parts1(x)) implies ar0@[0] == Part::U32(x.0) by { let s = bound_parts1(x); assert(ar0@[0] == s[0]); } }
@end
@fn load_bound0 = boost::serialization::Serializer::serialize 3 ~Serializer<0>.*packed_iarchive &.*unsigned int, unsigned int
@ensures tuple: res.ar == ar0 && res.a == a0
@fn load_bound = boost::serialization::serialize 3 ~packed_iarchive &,class std::tuple.*unsigned int, unsigned int
@ensures tuple: forall|x: (u32, u32)| starts(ar0@, #[trigger] bound_parts(x)) ==> res.a.0 == x.0 && res.a.1 == x.1 && res.ar@ =~= ar0@.skip(2)
@fn save_text2 = boost::serialization::Serializer::serialize 3 ~Serializer<2>.*packed_oarchive &.*basic_string
@ensures parts: res.ar@ =~= ar0@ + text_parts(a0) && res.a == a0
@fn save_text1 = boost::serialization::Serializer::serialize 3 ~Serializer<1>.*packed_oarchive &.*basic_string
@ensures parts: res.ar@ =~= ar0@ + text_parts1(a0) && res.a == a0
@fn save_text0 = boost::serialization::Serializer::serialize 3 ~Serializer<0>.*packed_oarchive &.*basic_string
@ensures parts: res.ar == ar0 && res.a == a0
@fn save_text = boost::serialization::serialize 3 ~packed_oarchive &,class std::tuple.*basic_string
@ensures parts: res.ar@ =~= ar0@ + text_parts(a0) && res.a == a0
@fn load_text2 = boost::serialization::Serializer::serialize 3 ~Serializer<2>.*packed_iarchive &.*basic_string
@ensures tuple: forall|x: (CVec<u8>, CVec<u8>)| starts(ar0@, #[trigger] text_parts(x)) ==> res.a.0@ == x.0@ && res.a.1@ == x.1@ && res.ar@ =~= ar0@.skip(2)
@proof begin
let ghost X = choose|x: (CVec<u8>, CVec<u8>)| starts(ar0@, #[trigger] text_parts(x));
proof { assert forall|x: (CVec<u8>, CVec<u8>)| starts(ar0@, #[trigger] text_parts(x)) implies x.0@ == X.0@ && x.1@ == X.1@ && ar0@[0] == Part::S(x.1@) && ar0@[1] == Part::S(x.0@) && starts(ar0@.skip(1), text_parts1(x)) by { let s = text_parts(x); let t = text_parts(X); assert(ar0@[0] == s[0] && ar0@[1] == s[1] && ar0@[0] == t[0] && ar0@[1] == t[1]); assert(ar0@.skip(1)[0] == ar0@[1]); assert(text_parts1(x)[0] == s[1]); } }
@end
@fn load_text1 = boost::serialization::Serializer::serialize 3 ~Serializer<1>.*packed_iarchive &.*basic_string
@ensures tuple: forall|x: (CVec<u8>, CVec<u8>)| starts(ar0@, #[trigger] text_parts1(x)) ==> res.a.0@ == x.0@ && res.ar@ =~= ar0@.skip(1)
@ensures kept: res.a.1 == a0.1
@proof begin
proof { assert forall|x: (CVec<u8>, CVec<u8>)| starts(ar0@, #[trigger] text_parts1(x)) implies ar0@[0] == Part::S(x.0@) by { let s = text_parts1(x); assert(ar0@[0] == s[0]); } }
@end
@fn load_text0 = boost::serialization::Serializer::serialize 3 ~Serializer<0>.*packed_iarchive &.*basic_string
@ensures tuple: res.ar == ar0 && res.a == a0
@fn load_text = boost::serialization::serialize 3 ~packed_iarchive &,class std::tuple.*basic_string
@ensures tuple: forall|x: (CVec<u8>, CVec<u8>)| starts(ar0@, #[trigger] text_parts(x)) ==> res.a.0@ == x.0@ && res.a.1@ == x.1@ && res.ar@ =~= ar0@.skip(2)
