// Compiled as a module at the end of /repo's own src/math/parabola.rs.
// The deductive contracts treat the predictor as a pure function of its three inputs; here is why they may.
#[allow(unused_imports)]
use super::*;

fn bits(x: f32) -> u32 {
    x.to_bits()
}
fn small() -> f32 {
    // what normalize_sample produces
    let v: i16 = kani::any();
    v as f32 * (1.0 / 32767.0)
}
/// compute_coefs only looks at f, and leaves f alone
#[kani::proof]
#[kani::solver(cvc5)]
fn leaf_parabola_coefs() {
    let f = [small(), small(), small()];
    let mut a = FixedParabola { f, coefs: kani::any() };
    let mut b = FixedParabola { f, coefs: kani::any() };
    a.compute_coefs();
    b.compute_coefs();
    let mut i = 0;
    while i < 3 {
        assert!(bits(a.coefs[i]) == bits(b.coefs[i]));
        assert!(bits(a.f[i]) == bits(f[i]));
        i += 1;
    }
}
/// eval only looks at the coefficients and its argument
#[kani::proof]
#[kani::solver(cvc5)]
fn leaf_parabola_eval() {
    let coefs = [small(), small(), small()];
    let a = FixedParabola { f: kani::any(), coefs };
    let b = FixedParabola { f: kani::any(), coefs };
    let x = kani::any::<u8>() as f32;
    assert!(bits(a.eval(x)) == bits(b.eval(x)));
}
