# the command line
@trusted boost::program_options: what the command line says is a function of the name of the option (its parsing is executed, not proved)
@prelude
pub struct POpt { }
#[verifier::external_body]
pub fn popt_new() -> POpt { unimplemented!() }
pub uninterp spec fn opt_has(k: Seq<u8>) -> bool;
pub uninterp spec fn opt_text(k: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn opt_count(k: CVec<u8>) -> (r: u64) ensures r == (if opt_has(k@) { 1u64 } else { 0u64 }) { unimplemented!() }
#[verifier::external_body]
pub fn opt_as_str(k: CVec<u8>) -> (r: CVec<u8>) requires opt_has(k@) ensures r@ == opt_text(k@) { unimplemented!() }
#[verifier::external_body]
pub fn opt_as_i32(k: CVec<u8>) -> (r: i32) { unimplemented!() }
#[verifier::external_body]
pub fn opt_as_u32(k: CVec<u8>) -> (r: u32) ensures r == opt_u32(k@) { unimplemented!() }
pub uninterp spec fn opt_u32(k: Seq<u8>) -> u32;
pub uninterp spec fn opt_list(k: Seq<u8>) -> Seq<u32>;
#[verifier::external_body]
pub fn opt_as_list(k: CVec<u8>) -> (r: CVec<u32>) requires opt_has(k@) ensures r@ == opt_list(k@) { unimplemented!() }
pub open spec fn k_help() -> Seq<u8> { seq![104u8, 101u8, 108u8, 112u8] }
@end
