// Single-precision arithmetic: the operators are the verifier's own (uninterpreted, deterministic);
// conversions are named functions. What is claimed about their values is decided by Kani on the real operations.
//@ file src/codec.rs
//@ global
pub mod vx_float {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    pub open spec fn fmul(a: f32, b: f32) -> f32 { <f32 as MulSpec<f32>>::mul_spec(a, b) }
    pub open spec fn fadd(a: f32, b: f32) -> f32 { <f32 as AddSpec<f32>>::add_spec(a, b) }
    pub open spec fn fsub(a: f32, b: f32) -> f32 { <f32 as SubSpec<f32>>::sub_spec(a, b) }
    pub open spec fn fdiv(a: f32, b: f32) -> f32 { <f32 as DivSpec<f32>>::div_spec(a, b) }
    /// arithmetic on floats never panics and its result only depends on the operands
    #[verifier::external_body]
    pub broadcast proof fn ax_mul(a: f32, b: f32) ensures #[trigger] <f32 as MulSpec<f32>>::mul_req(a, b) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_add(a: f32, b: f32) ensures #[trigger] <f32 as AddSpec<f32>>::add_req(a, b) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_sub(a: f32, b: f32) ensures #[trigger] <f32 as SubSpec<f32>>::sub_req(a, b) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_div(a: f32, b: f32) ensures #[trigger] <f32 as DivSpec<f32>>::div_req(a, b) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_obey_mul() ensures #[trigger] <f32 as MulSpec<f32>>::obeys_mul_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn ax_obey_add() ensures #[trigger] <f32 as AddSpec<f32>>::obeys_add_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn ax_obey_sub() ensures #[trigger] <f32 as SubSpec<f32>>::obeys_sub_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn ax_obey_div() ensures #[trigger] <f32 as DivSpec<f32>>::obeys_div_spec() {}
    pub broadcast group fl { ax_mul, ax_add, ax_sub, ax_div, ax_obey_mul, ax_obey_add, ax_obey_sub, ax_obey_div }
    pub uninterp spec fn f32_of<T>(x: T) -> f32;
    pub uninterp spec fn u64_of(x: f32) -> u64;
    pub uninterp spec fn i64_of(x: f32) -> i64;
    pub uninterp spec fn i16_of(x: f32) -> i16;
    /// `x as f32`
    #[verifier::external_body]
    pub fn vx_as_f32<T>(x: T) -> (r: f32) ensures r == f32_of(x) { unimplemented!() }
    /// what an integer turns into does not depend on its type (leaf_int_float)
    pub broadcast axiom fn ax_int_u32(x: u32) ensures x <= i32::MAX ==> #[trigger] f32_of::<u32>(x) == f32_of::<i32>(x as i32);
    pub broadcast axiom fn ax_int_u64(x: u64) ensures x <= i32::MAX ==> #[trigger] f32_of::<u64>(x) == f32_of::<i32>(x as i32);
    pub broadcast axiom fn ax_int_usize(x: usize) ensures x <= i32::MAX ==> #[trigger] f32_of::<usize>(x) == f32_of::<i32>(x as i32);
    pub broadcast axiom fn ax_int_u16(x: u16) ensures #[trigger] f32_of::<u16>(x) == f32_of::<i32>(x as i32);
    pub broadcast group int_float { ax_int_u32, ax_int_u64, ax_int_usize, ax_int_u16 }
    /// `x as u64`, `x as i64`, `x as i16` for a float x
    #[verifier::external_body]
    pub fn vx_f32_as_u64(x: f32) -> (r: u64) ensures r == u64_of(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_f32_as_i16(x: f32) -> (r: i16) ensures r == i16_of(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_f32_as_i64(x: f32) -> (r: i64) ensures r == i64_of(x) { unimplemented!() }
}
use vx_float::*;
broadcast use vx_float::fl;
