// Leaf functions in floating point. The deductive verifier treats each as a pure (deterministic) function;
// what is claimed about their values is stated as axioms here and discharged by Kani on the real code
// (see kani/, one harness per axiom).
//@ file src/codec.rs
//@ global
pub uninterp spec fn nz_of<T>(x: T) -> f32;
pub open spec fn nz(x: i16) -> f32 { nz_of::<i16>(x) }
pub uninterp spec fn tq(s: f32) -> i16;
pub uninterp spec fn fclamp(x: f32, lo: f32, hi: f32) -> f32;
pub assume_specification [f32::clamp](x: f32, lo: f32, hi: f32) -> (r: f32)
    ensures r == fclamp(x, lo, hi);
/// Kani: leaf_truncate_range
#[verifier::external_body]
pub proof fn axiom_tq_range(s: f32)
    ensures -32767 <= tq(s) <= 32767
{}
/// Kani: leaf_normalize_unclamped
#[verifier::external_body]
pub proof fn axiom_nz_unclamped(x: i16)
    requires x >= -32767
    ensures fclamp(nz(x), -1.0f32, 1.0f32) == nz(x)
{}
//@ fn normalize_sample
//@ ret r
//@ attr
#[verifier::external_body]
//@ spec
    ensures r == nz_of::<T>(samp)

//@ fn truncate_sample
//@ ret r
//@ attr
#[verifier::external_body]
//@ spec
    ensures r == tq(samp)

//@ file src/math/parabola.rs
//@ type FixedParabola
//@ global
pub uninterp spec fn coefs_of(f: Seq<f32>) -> Seq<f32>;
pub uninterp spec fn eval_of(coefs: Seq<f32>, x: f32) -> f32;
/// the prediction from the last three samples
pub open spec fn pred3(a: i16, b: i16, c: i16) -> i16 { tq(eval_of(coefs_of(seq![nz(a), nz(b), nz(c)]), 3.0f32)) }
//@ fn FixedParabola::new
//@ fn FixedParabola::compute_coefs
//@ attr
#[verifier::external_body]
//@ spec
    ensures final(self).f == old(self).f, final(self).coefs@ == coefs_of(old(self).f@)

//@ fn FixedParabola::eval
//@ ret r
//@ attr
#[verifier::external_body]
//@ spec
    ensures r == eval_of(self.coefs@, x)
