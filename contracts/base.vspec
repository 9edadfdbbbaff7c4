// Assumptions about the platform and about functions of core (assumed contracts)
//@ file src/codec/adhoc/frame.rs
//@ global
global size_of usize == 8;
/* ---- external functions used by the extracted code (assumed contracts of core) ---- */
/* x[a..b].copy_from_slice(src), under the name vx writes it with (R34) */
pub trait VxPlace<T> {
    spec fn vx_items(&self) -> Seq<T>;
    fn vx_put_slice(&mut self, a: usize, b: usize, src: &[T])
        requires a <= b <= old(self).vx_items().len(), src@.len() == b - a
        ensures final(self).vx_items() == old(self).vx_items().take(a as int) + src@ + old(self).vx_items().skip(b as int);
    fn vx_put_slice_from(&mut self, a: usize, src: &[T])
        requires a <= old(self).vx_items().len(), src@.len() == old(self).vx_items().len() - a
        ensures final(self).vx_items() == old(self).vx_items().take(a as int) + src@;
}
impl<T: Copy> VxPlace<T> for Vec<T> {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_put_slice(&mut self, a: usize, b: usize, src: &[T]) { self[a..b].copy_from_slice(src) }
    #[verifier::external_body]
    fn vx_put_slice_from(&mut self, a: usize, src: &[T]) { self[a..].copy_from_slice(src) }
}
impl<T: Copy> VxPlace<T> for [T] {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_put_slice(&mut self, a: usize, b: usize, src: &[T]) { self[a..b].copy_from_slice(src) }
    #[verifier::external_body]
    fn vx_put_slice_from(&mut self, a: usize, src: &[T]) { self[a..].copy_from_slice(src) }
}
pub assume_specification [u128::checked_shl](x: u128, n: u32) -> (r: Option<u128>)
    ensures r == (if n < 128 { Some((x << n) as u128) } else { None::<u128> });
pub assume_specification [u128::count_zeros](x: u128) -> (r: u32)
    ensures (r == 0) == (x == !0u128);
pub assume_specification<T> [<T as From<T>>::from](t: T) -> (r: T)
    ensures r == t;
pub assume_specification [i32::wrapping_neg](x: i32) -> (r: i32)
    ensures r as int == (if x == i32::MIN { x as int } else { -(x as int) });
pub assume_specification [i16::unsigned_abs](x: i16) -> (r: u16)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });
/* ---- and ones it might use (nothing on the unchanged tree does) ---- */
pub assume_specification [i16::saturating_add](x: i16, y: i16) -> (r: i16)
    ensures r as int == (if x + y > i16::MAX { i16::MAX as int } else if x + y < i16::MIN { i16::MIN as int } else { x + y });
pub assume_specification [i16::saturating_sub](x: i16, y: i16) -> (r: i16)
    ensures r as int == (if x - y > i16::MAX { i16::MAX as int } else if x - y < i16::MIN { i16::MIN as int } else { x - y });
pub assume_specification [i16::saturating_mul](x: i16, y: i16) -> (r: i16)
    ensures r as int == (if x * y > i16::MAX { i16::MAX as int } else if x * y < i16::MIN { i16::MIN as int } else { x * y });
pub assume_specification [i32::saturating_add](x: i32, y: i32) -> (r: i32)
    ensures r as int == (if x + y > i32::MAX { i32::MAX as int } else if x + y < i32::MIN { i32::MIN as int } else { x + y });
pub assume_specification [i32::saturating_sub](x: i32, y: i32) -> (r: i32)
    ensures r as int == (if x - y > i32::MAX { i32::MAX as int } else if x - y < i32::MIN { i32::MIN as int } else { x - y });
pub assume_specification [i32::saturating_mul](x: i32, y: i32) -> (r: i32)
    ensures r as int == (if x * y > i32::MAX { i32::MAX as int } else if x * y < i32::MIN { i32::MIN as int } else { x * y });
pub assume_specification [i32::unsigned_abs](x: i32) -> (r: u32)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i64::unsigned_abs](x: i64) -> (r: u64)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i16::abs](x: i16) -> (r: i16)
    requires x != i16::MIN ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i16::wrapping_neg](x: i16) -> (r: i16)
    ensures r as int == (if x == i16::MIN { x as int } else { -(x as int) });
pub assume_specification [i32::abs](x: i32) -> (r: i32)
    requires x != i32::MIN ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i64::abs](x: i64) -> (r: i64)
    requires x != i64::MIN ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i64::wrapping_neg](x: i64) -> (r: i64)
    ensures r as int == (if x == i64::MIN { x as int } else { -(x as int) });
pub assume_specification [u16::abs_diff](x: u16, y: u16) -> (r: u16)
    ensures r as int == (if x < y { y - x } else { x - y });
pub assume_specification [u32::abs_diff](x: u32, y: u32) -> (r: u32)
    ensures r as int == (if x < y { y - x } else { x - y });
pub assume_specification [u64::abs_diff](x: u64, y: u64) -> (r: u64)
    ensures r as int == (if x < y { y - x } else { x - y });
pub assume_specification [usize::abs_diff](x: usize, y: usize) -> (r: usize)
    ensures r as int == (if x < y { y - x } else { x - y });
pub assume_specification [u32::div_ceil](x: u32, y: u32) -> (r: u32)
    requires y != 0 ensures r as int == x as int / y as int + (if x as int % y as int == 0 { 0int } else { 1int });
pub assume_specification [u64::div_ceil](x: u64, y: u64) -> (r: u64)
    requires y != 0 ensures r as int == x as int / y as int + (if x as int % y as int == 0 { 0int } else { 1int });
pub assume_specification [usize::div_ceil](x: usize, y: usize) -> (r: usize)
    requires y != 0 ensures r as int == x as int / y as int + (if x as int % y as int == 0 { 0int } else { 1int });
/// a remainder in terms of the quotient (for code that writes one as the other)
pub broadcast proof fn lemma_mod_def(x: int, n: int)
    requires n > 0
    ensures #[trigger] (x % n) == x - (x / n) * n, 0 <= x % n < n, x >= 0 ==> 0 <= (x / n) * n <= x && x / n >= 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    assert(n * (x / n) == (x / n) * n) by (nonlinear_arith);
    if x >= 0 { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, n); }
}
