// Compiled as a module at the end of /repo's own src/codec.rs: the conversions between f32 and i16.
// Every harness is loop free over the full domain of its symbolic inputs.
#[allow(unused_imports)]
use super::*;

//@ contract truncate_sample: kani::ensures(|r| verif_kani_codec::truncate_post({0}, *r))

/// what truncate_sample promises
pub fn truncate_post(s: f32, q: i16) -> bool {
    if s.is_nan() {
        return q == 0;
    }
    let c = if s < -1.0 { -1.0 } else if s > 1.0 { 1.0 } else { s };
    // exact product of a 24 bit and a 15 bit significand
    let exact = c as f64 * 32767.0;
    let d = exact - q as f64;
    let m = if exact < 0.0 { -exact } else { exact };
    let a = if q < 0 { -(q as f64) } else { q as f64 };
    // within one step, never larger in magnitude (apart from the rounding of the single precision product), in range
    q >= -32767 && d < 1.0 && d > -1.0 && a <= m * 1.000001
}
/// axiom_tq_range and the value of truncate_sample
#[kani::proof_for_contract(truncate_sample)]
#[kani::solver(kissat)]
fn leaf_truncate_value() {
    truncate_sample(kani::any());
}
/// A larger sample never turns into a smaller value, in three steps: clamping is monotone (below),
/// IEEE multiplication by a positive constant is monotone (lemmas/mono.v), truncating is monotone (below),
/// and truncate_sample is nothing but these three (a route to the proof, not a claim of the property:
/// when it does not hold all floats are tried instead).
#[kani::proof]
#[kani::solver(kissat)]
fn route_truncate_is_product() {
    let s: f32 = kani::any();
    kani::assume(!s.is_nan());
    assert!(truncate_sample(s) == (s.clamp(-1.0, 1.0) * 32767.0) as i16);
}
#[kani::proof]
fn leaf_clamp_monotone() {
    let a: f32 = kani::any();
    let b: f32 = kani::any();
    kani::assume(a <= b);
    assert!(a.clamp(-1.0, 1.0) <= b.clamp(-1.0, 1.0));
}
#[kani::proof]
fn leaf_cast_monotone() {
    let a: f32 = kani::any();
    let b: f32 = kani::any();
    kani::assume(a <= b && a >= -40000.0 && b <= 40000.0);
    assert!(a as i16 <= b as i16);
}
/// axiom_nz_unclamped
#[kani::proof]
fn leaf_normalize_unclamped() {
    let x: i16 = kani::any();
    kani::assume(x >= -32767);
    let y = normalize_sample(x);
    assert!(y.clamp(-1.0, 1.0) == y);
}
/// a decoded value is v/32767 up to single precision
#[kani::proof]
fn leaf_normalize_value() {
    let x: i16 = kani::any();
    let y = normalize_sample(x) as f64;
    let d = y * 32767.0 - x as f64;
    assert!(d <= 0.005 && d >= -0.005);
    if x >= -32767 {
        assert!(y >= -1.0 && y <= 1.0);
    }
}
/// a larger value never turns into a smaller sample
#[kani::proof]
fn leaf_normalize_monotone() {
    let a: i16 = kani::any();
    let b: i16 = kani::any();
    kani::assume(a < b);
    assert!(normalize_sample(a) < normalize_sample(b));
}
/// the dither step as the contract of encode states it
fn dith(s: f32, noise: f32, inv: f32) -> f32 {
    (s + (noise * 0.001) * (1.0 - inv)) * inv
}
/// the values the dither noise takes (`unit` in the contracts)
fn noise() -> f32 {
    let a: u64 = kani::any();
    let b: u64 = kani::any();
    kani::assume(a < 16384 && b < 16384);
    (a as f32 / 16384.0) * -1.0 + (b as f32 / 16384.0) * 1.0
}
/// the dither noise lies in [-1, 1]
#[kani::proof]
fn leaf_noise_unit() {
    let x = noise();
    assert!(x >= -1.0 && x <= 1.0);
}
/// axiom_level0, first part: nothing is added at level 0
#[kani::proof]
fn leaf_level0_identity() {
    let s: f32 = kani::any();
    let n: f32 = kani::any();
    kani::assume(n >= -1.0 && n <= 1.0);
    let scale = (1i32 << 0) as f32;
    let d = dith(s, n, 1.0 / scale);
    assert!(d == s || s.is_nan() && d.is_nan());
    // the conversion does not look at the sign of a zero or the payload of a NaN
    assert!(truncate_sample(f32::NAN) == 0 && truncate_sample(0.0) == 0 && truncate_sample(-0.0) == 0);
}
/// vx_float::int_float
#[kani::proof]
fn leaf_int_float() {
    let x: i32 = kani::any();
    if x >= 0 {
        assert!(x as u32 as f32 == x as f32 && x as u64 as f32 == x as f32 && x as usize as f32 == x as f32);
        if x <= 0xffff { assert!(x as u16 as f32 == x as f32); }
    }
}
/// axiom_level0, second part
#[kani::proof]
fn leaf_scale_one() {
    let v: i16 = kani::any();
    let x = normalize_sample(v);
    assert!((x * (1i32 << 0) as f32).to_bits() == x.to_bits());
}
/// axiom_pcm: a 16-bit value comes back from its sample up to one step, and from then on exactly
#[kani::proof]
fn leaf_pcm_near() {
    let v: i16 = kani::any();
    let x = normalize_sample(v);
    let a = truncate_sample(x);
    assert!((a as i32 - v as i32) <= 1 && (v as i32 - a as i32) <= 1);
    assert!(truncate_sample(normalize_sample(a)) == a);
    if v >= -32767 { assert!(x >= -1.0 && x <= 1.0); }
}
/// what the dither adds
#[kani::proof]
fn leaf_dither_small() {
    let n: f32 = kani::any();
    kani::assume(n >= -1.0 && n <= 1.0);
    let level: u32 = kani::any();
    kani::assume(level <= 10);
    let inv = 1.0 / ((1i32 << level) as f32);
    let e = (n * 0.001f32) * (1.0 - inv);
    assert!(e >= -0.001f32 && e <= 0.001f32);
}
/// axiom_lossy at one level: what is read back is within one step and the dither of what was encoded
fn lossy(level: u32) {
    let s: f32 = kani::any();
    let e: f32 = kani::any();
    kani::assume(s >= -1.0 && s <= 1.0 && e >= -0.001f32 && e <= 0.001f32);
    let scale = (1i32 << level) as f32;
    let r = normalize_sample(truncate_sample((s + e) * (1.0 / scale))) * scale;
    let d = r as f64 - s as f64;
    let bound = (1u32 << level) as f64 / 32767.0 + 0.001 + 1e-5;
    assert!(d <= bound && d >= -bound);
}
macro_rules! lossy {
    ($($name:ident $level:expr;)*) => { $(
        #[kani::proof]
        #[kani::solver(kissat)]
        fn $name() { lossy($level) }
    )* }
}
lossy! {
    leaf_lossy_l01 1; leaf_lossy_l02 2; leaf_lossy_l03 3; leaf_lossy_l04 4; leaf_lossy_l05 5; leaf_lossy_l06 6; leaf_lossy_l07 7; leaf_lossy_l08 8; leaf_lossy_l09 9; leaf_lossy_l10 10;
}
