# Configuration nodes (C17)
@trusted yaml-cpp: a node maps names to texts; unsigned numbers are written in decimal and truth values as true and false, and read back so (contracts in contracts/config.vc)
@trusted boost::filesystem: a path is its text
@tu src/config/config_node.cc
@use stream.vc
@prelude
pub struct YV { pub defined: bool, pub text: Seq<u8>, pub entries: Map<Seq<u8>, Seq<u8>> }
pub struct YNode { pub g: Ghost<YV> }
impl Clone for YNode { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for YNode {}
impl YNode { pub open spec fn view(self) -> YV { self.g@ } }
pub open spec fn k_Prime() -> Seq<u8> { seq![80u8, 114u8, 105u8, 109u8, 101u8] }
pub open spec fn k_PrimeExponent() -> Seq<u8> { seq![80u8, 114u8, 105u8, 109u8, 101u8, 69u8, 120u8, 112u8, 111u8, 110u8, 101u8, 110u8, 116u8] }
pub open spec fn k_Genus() -> Seq<u8> { seq![71u8, 101u8, 110u8, 117u8, 115u8] }
pub open spec fn k_WithMarkedPoint() -> Seq<u8> { seq![87u8, 105u8, 116u8, 104u8, 77u8, 97u8, 114u8, 107u8, 101u8, 100u8, 80u8, 111u8, 105u8, 110u8, 116u8] }
pub open spec fn k_CountExponent() -> Seq<u8> { seq![67u8, 111u8, 117u8, 110u8, 116u8, 69u8, 120u8, 112u8, 111u8, 110u8, 101u8, 110u8, 116u8] }
pub open spec fn k_ResultPath() -> Seq<u8> { seq![82u8, 101u8, 115u8, 117u8, 108u8, 116u8, 80u8, 97u8, 116u8, 104u8] }
pub open spec fn k_PackageSize() -> Seq<u8> { seq![80u8, 97u8, 99u8, 107u8, 97u8, 103u8, 101u8, 83u8, 105u8, 122u8, 101u8] }
// what yaml-cpp reads in a text
pub uninterp spec fn y_u32(t: Seq<u8>) -> u32;
pub uninterp spec fn y_i32(t: Seq<u8>) -> i32;
pub uninterp spec fn y_u64(t: Seq<u8>) -> u64;
pub uninterp spec fn y_i64(t: Seq<u8>) -> i64;
pub uninterp spec fn y_bool(t: Seq<u8>) -> bool;
pub open spec fn bool_text(b: bool) -> Seq<u8> { if b { seq![116u8, 114u8, 117u8, 101u8] } else { seq![102u8, 97u8, 108u8, 115u8, 101u8] } }
pub axiom fn axiom_y_u32(n: u32) ensures y_u32(deci(n as int)) == n;
pub axiom fn axiom_y_bool(b: bool) ensures y_bool(bool_text(b)) == b;
#[verifier::external_body]
pub fn node_new() -> (r: YNode) ensures r@.entries =~= Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn node_child(n: YNode, k: CVec<u8>) -> (r: YNode) ensures r@.defined == n@.entries.contains_key(k@), r@.defined ==> r@.text == n@.entries[k@] { unimplemented!() }
#[verifier::external_body]
pub fn node_defined(n: YNode) -> (r: bool) ensures r == n@.defined { unimplemented!() }
#[verifier::external_body]
pub fn node_as_u32(n: YNode) -> (r: u32) requires n@.defined ensures r == y_u32(n@.text) { unimplemented!() }
#[verifier::external_body]
pub fn node_as_i32(n: YNode) -> (r: i32) requires n@.defined ensures r == y_i32(n@.text) { unimplemented!() }
#[verifier::external_body]
pub fn node_as_u64(n: YNode) -> (r: u64) requires n@.defined ensures r == y_u64(n@.text) { unimplemented!() }
#[verifier::external_body]
pub fn node_as_i64(n: YNode) -> (r: i64) requires n@.defined ensures r == y_i64(n@.text) { unimplemented!() }
#[verifier::external_body]
pub fn node_as_bool(n: YNode) -> (r: bool) requires n@.defined ensures r == y_bool(n@.text) { unimplemented!() }
#[verifier::external_body]
pub fn node_as_str(n: YNode) -> (r: CVec<u8>) requires n@.defined ensures r@ == n@.text { unimplemented!() }
#[verifier::external_body]
pub fn node_set_u32(n: YNode, k: CVec<u8>, x: u32) -> (r: YNode) ensures r@.entries == n@.entries.insert(k@, deci(x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn node_set_i32(n: YNode, k: CVec<u8>, x: i32) -> (r: YNode) ensures r@.entries == n@.entries.insert(k@, deci(x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn node_set_u64(n: YNode, k: CVec<u8>, x: u64) -> (r: YNode) ensures r@.entries == n@.entries.insert(k@, deci(x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn node_set_i64(n: YNode, k: CVec<u8>, x: i64) -> (r: YNode) ensures r@.entries == n@.entries.insert(k@, deci(x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn node_set_bool(n: YNode, k: CVec<u8>, x: bool) -> (r: YNode) ensures r@.entries == n@.entries.insert(k@, bool_text(x)) { unimplemented!() }
#[verifier::external_body]
pub fn node_set_str(n: YNode, k: CVec<u8>, x: CVec<u8>) -> (r: YNode) ensures r@.entries == n@.entries.insert(k@, x@) { unimplemented!() }
pub uninterp spec fn dir_exists(p: Seq<u8>) -> bool;
pub uninterp spec fn dir_creatable(p: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn dir_is(p: CVec<u8>) -> (r: bool) ensures r == dir_exists(p@) { unimplemented!() }
#[verifier::external_body]
pub fn dir_create(p: CVec<u8>) -> (r: bool) ensures r == dir_creatable(p@) { unimplemented!() }
// every required entry is there
pub open spec fn complete(n: Map<Seq<u8>, Seq<u8>>) -> bool { n.contains_key(k_Prime()) && n.contains_key(k_PrimeExponent()) && n.contains_key(k_Genus()) && n.contains_key(k_ResultPath()) && n.contains_key(k_PackageSize()) }
// the node of a file means this configuration
pub open spec fn means(n: Map<Seq<u8>, Seq<u8>>, c: ConfigNode) -> bool {
  &&& c.prime == y_u32(n[k_Prime()]) && c.prime_exponent == y_u32(n[k_PrimeExponent()]) && c.genus == y_u32(n[k_Genus()]) && c.package_size == y_u32(n[k_PackageSize()]) && c.result_path@ == n[k_ResultPath()]
  &&& c.with_marked_point == (n.contains_key(k_WithMarkedPoint()) && y_bool(n[k_WithMarkedPoint()]))
  &&& c.count_exponent == if n.contains_key(k_CountExponent()) { y_u32(n[k_CountExponent()]) } else { c.genus }
}
pub proof fn lemma_keys()
  ensures k_Prime() != k_PrimeExponent(), k_Prime() != k_Genus(), k_Prime() != k_WithMarkedPoint(), k_Prime() != k_CountExponent(), k_Prime() != k_ResultPath(), k_Prime() != k_PackageSize(), k_PrimeExponent() != k_Genus(), k_PrimeExponent() != k_WithMarkedPoint(), k_PrimeExponent() != k_CountExponent(), k_PrimeExponent() != k_ResultPath(), k_PrimeExponent() != k_PackageSize(), k_Genus() != k_WithMarkedPoint(), k_Genus() != k_CountExponent(), k_Genus() != k_ResultPath(), k_Genus() != k_PackageSize(), k_WithMarkedPoint() != k_CountExponent(), k_WithMarkedPoint() != k_ResultPath(), k_WithMarkedPoint() != k_PackageSize(), k_CountExponent() != k_ResultPath(), k_CountExponent() != k_PackageSize(), k_ResultPath() != k_PackageSize()
{ assert(k_Prime().len() != k_PrimeExponent().len()); assert(k_Prime()[0] != k_Genus()[0]); assert(k_Prime().len() != k_WithMarkedPoint().len()); assert(k_Prime().len() != k_CountExponent().len()); assert(k_Prime().len() != k_ResultPath().len()); assert(k_Prime().len() != k_PackageSize().len()); assert(k_PrimeExponent().len() != k_Genus().len()); assert(k_PrimeExponent().len() != k_WithMarkedPoint().len()); assert(k_PrimeExponent()[0] != k_CountExponent()[0]); assert(k_PrimeExponent().len() != k_ResultPath().len()); assert(k_PrimeExponent().len() != k_PackageSize().len()); assert(k_Genus().len() != k_WithMarkedPoint().len()); assert(k_Genus().len() != k_CountExponent().len()); assert(k_Genus().len() != k_ResultPath().len()); assert(k_Genus().len() != k_PackageSize().len()); assert(k_WithMarkedPoint().len() != k_CountExponent().len()); assert(k_WithMarkedPoint().len() != k_ResultPath().len()); assert(k_WithMarkedPoint().len() != k_PackageSize().len()); assert(k_CountExponent().len() != k_ResultPath().len()); assert(k_CountExponent().len() != k_PackageSize().len()); assert(k_ResultPath().len() != k_PackageSize().len()); }
@end
@fn decode = YAML::convert::decode
@ensures complete: res.ret == complete(node0@.entries)
@ensures fields: res.ret ==> means(node0@.entries, res.config)
@proof begin
proof { assert(Seq::<u8>::empty().push(80u8).push(114u8).push(105u8).push(109u8).push(101u8) =~= k_Prime()); assert(Seq::<u8>::empty().push(80u8).push(114u8).push(105u8).push(109u8).push(101u8).push(69u8).push(120u8).push(112u8).push(111u8).push(110u8).push(101u8).push(110u8).push(116u8) =~= k_PrimeExponent()); assert(Seq::<u8>::empty().push(71u8).push(101u8).push(110u8).push(117u8).push(115u8) =~= k_Genus()); assert(Seq::<u8>::empty().push(87u8).push(105u8).push(116u8).push(104u8).push(77u8).push(97u8).push(114u8).push(107u8).push(101u8).push(100u8).push(80u8).push(111u8).push(105u8).push(110u8).push(116u8) =~= k_WithMarkedPoint()); assert(Seq::<u8>::empty().push(67u8).push(111u8).push(117u8).push(110u8).push(116u8).push(69u8).push(120u8).push(112u8).push(111u8).push(110u8).push(101u8).push(110u8).push(116u8) =~= k_CountExponent()); assert(Seq::<u8>::empty().push(82u8).push(101u8).push(115u8).push(117u8).push(108u8).push(116u8).push(80u8).push(97u8).push(116u8).push(104u8) =~= k_ResultPath()); assert(Seq::<u8>::empty().push(80u8).push(97u8).push(99u8).push(107u8).push(97u8).push(103u8).push(101u8).push(83u8).push(105u8).push(122u8).push(101u8) =~= k_PackageSize()); }
@end
@fn encode = YAML::convert::encode
@ensures complete: complete(res.ret@.entries)
@ensures back: forall|c: ConfigNode| #[trigger] means(res.ret@.entries, c) ==> c.prime == config0.prime && c.prime_exponent == config0.prime_exponent && c.genus == config0.genus && c.with_marked_point == config0.with_marked_point && c.count_exponent == config0.count_exponent && c.result_path@ == config0.result_path@ && c.package_size == config0.package_size
@proof begin
proof { assert(Seq::<u8>::empty().push(80u8).push(114u8).push(105u8).push(109u8).push(101u8) =~= k_Prime()); assert(Seq::<u8>::empty().push(80u8).push(114u8).push(105u8).push(109u8).push(101u8).push(69u8).push(120u8).push(112u8).push(111u8).push(110u8).push(101u8).push(110u8).push(116u8) =~= k_PrimeExponent()); assert(Seq::<u8>::empty().push(71u8).push(101u8).push(110u8).push(117u8).push(115u8) =~= k_Genus()); assert(Seq::<u8>::empty().push(87u8).push(105u8).push(116u8).push(104u8).push(77u8).push(97u8).push(114u8).push(107u8).push(101u8).push(100u8).push(80u8).push(111u8).push(105u8).push(110u8).push(116u8) =~= k_WithMarkedPoint()); assert(Seq::<u8>::empty().push(67u8).push(111u8).push(117u8).push(110u8).push(116u8).push(69u8).push(120u8).push(112u8).push(111u8).push(110u8).push(101u8).push(110u8).push(116u8) =~= k_CountExponent()); assert(Seq::<u8>::empty().push(82u8).push(101u8).push(115u8).push(117u8).push(108u8).push(116u8).push(80u8).push(97u8).push(116u8).push(104u8) =~= k_ResultPath()); assert(Seq::<u8>::empty().push(80u8).push(97u8).push(99u8).push(107u8).push(97u8).push(103u8).push(101u8).push(83u8).push(105u8).push(122u8).push(101u8) =~= k_PackageSize()); }
@end
@proof return
proof { lemma_keys(); axiom_y_u32(config0.prime); axiom_y_u32(config0.prime_exponent); axiom_y_u32(config0.genus); axiom_y_u32(config0.package_size); axiom_y_u32(config0.count_exponent); axiom_y_bool(config0.with_marked_point); }
@end
@fn verify = ConfigNode::verify
@ensures valid: res.ret == (this0.prime != 0 && this0.prime_exponent != 0 && this0.genus != 0 && this0.count_exponent != 0 && this0.package_size != 0 && (dir_exists(this0.result_path@) || dir_creatable(this0.result_path@)))
