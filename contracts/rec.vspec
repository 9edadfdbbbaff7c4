// What a recording is: frame headers, bits and the channels they stand for (definitions and lemmas only)
//@ file src/codec/adhoc/frame.rs
//@ global
/* Header number i describes a frame of channel i % c. */
/// samples of this channel before frame i
pub open spec fn tt(hs: Seq<FrameHeader>, c: int, i: int) -> int decreases i {
    if c < 1 || i < c { 0 } else { tt(hs, c, i - c) + hs[i - c].size as int }
}
/// bit position of frame i
pub open spec fn fpos(hs: Seq<FrameHeader>, xs: Seq<Seq<i16>>, c: int, i: int) -> int decreases i {
    if i <= 0 { 0 } else { fpos(hs, xs, c, i - 1) + flen(hs, xs, c, i - 1) }
}
/// bits of frame i
pub open spec fn flen(hs: Seq<FrameHeader>, xs: Seq<Seq<i16>>, c: int, i: int) -> int {
    off(hs[i].is_init, hs[i].exponent as int, xs[i % c], tt(hs, c, i), hs[i].size as int)
}
pub open spec fn hdr_ok(hs: Seq<FrameHeader>, s: Bits, xs: Seq<Seq<i16>>, c: int, i: int) -> bool {
    let h = hs[i]; let x = xs[i % c]; let t = tt(hs, c, i);
    &&& h.size >= 1 && 1 <= h.exponent <= 15
    &&& h.is_init == (i < c)
    &&& h.bit_cursor == fpos(hs, xs, c, i)
    &&& t + h.size <= x.len()
    &&& frame_at(s, fpos(hs, xs, c, i), h.is_init, h.exponent as int, x, t, h.size as int)
    &&& i >= c ==> h.stack_history@ =~= seq![xi(x, t - 3), xi(x, t - 2), xi(x, t - 1)]
    &&& i % c != 0 ==> h.size == hs[i - 1].size
}
/// these headers and bits are the recording of the channels xs
pub open spec fn rec_ok(hs: Seq<FrameHeader>, s: Bits, xs: Seq<Seq<i16>>, c: int) -> bool {
    &&& c >= 1 && xs.len() == c
    &&& forall|i: int| 0 <= i < hs.len() ==> #[trigger] hdr_ok(hs, s, xs, c, i)
    &&& forall|i: int| hs.len() <= i < hs.len() + c ==> xs[i % c].len() == #[trigger] tt(hs, c, i)
    &&& forall|k: int| 0 <= k < c ==> vals_ok(#[trigger] xs[k])
}
pub proof fn lemma_tt_ext(a: Seq<FrameHeader>, b: Seq<FrameHeader>, c: int, i: int)
    requires c >= 1, i < a.len() + c, a.len() <= b.len(), forall|j: int| 0 <= j < a.len() ==> a[j] == #[trigger] b[j]
    ensures tt(a, c, i) == tt(b, c, i)
    decreases i
{ if i >= c { lemma_tt_ext(a, b, c, i - c); assert(a[i - c] == b[i - c]); } }
pub proof fn lemma_tt_pos(hs: Seq<FrameHeader>, c: int, i: int)
    requires c >= 1, i < hs.len() + c, forall|j: int| 0 <= j < hs.len() ==> (#[trigger] hs[j]).size >= 1
    ensures tt(hs, c, i) >= 0, i >= c ==> tt(hs, c, i) >= 1
    decreases i
{ if i >= c { lemma_tt_pos(hs, c, i - c); } }
pub proof fn lemma_mod_step(i: int, c: int)
    requires c >= 1, i >= 0
    ensures 0 <= i % c < c, (i + c) % c == i % c, i < c ==> i % c == i,
        (i + 1) % c == (if i % c + 1 == c { 0 } else { i % c + 1 }),
{
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i, c);
    vstd::arithmetic::div_mod::lemma_mod_bound(i, c);
    if i < c { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, c as nat); }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, c);
    let q = i / c; let r = i % c;
    if r + 1 == c {
        assert(i + 1 == c * (q + 1)) by (nonlinear_arith) requires i == c * q + r, r + 1 == c;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, c);
        assert((q + 1) * c == c * (q + 1)) by (nonlinear_arith);
    } else {
        assert(q * c == c * q) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + 1, c, q, r + 1);
    }
}
/// positions do not change when channels and headers are extended
pub proof fn lemma_fpos_ext(a: Seq<FrameHeader>, b: Seq<FrameHeader>, s: Bits, xs: Seq<Seq<i16>>, ys: Seq<Seq<i16>>, c: int, i: int)
    requires c >= 1, xs.len() == c, ys.len() == c, 0 <= i <= a.len() <= b.len(),
        forall|j: int| 0 <= j < a.len() ==> a[j] == #[trigger] b[j],
        forall|j: int| 0 <= j < a.len() ==> #[trigger] hdr_ok(a, s, xs, c, j),
        forall|k: int| 0 <= k < c ==> (#[trigger] xs[k]).is_prefix_of(ys[k]),
    ensures fpos(a, xs, c, i) == fpos(b, ys, c, i), i < a.len() ==> flen(a, xs, c, i) == flen(b, ys, c, i)
    decreases i
{
    if i > 0 { lemma_fpos_ext(a, b, s, xs, ys, c, i - 1); }
    if i < a.len() {
        assert(hdr_ok(a, s, xs, c, i));
        lemma_mod_step(i, c);
        lemma_tt_ext(a, b, c, i);
        assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]).size >= 1 by { assert(hdr_ok(a, s, xs, c, j)); }
        lemma_tt_pos(a, c, i);
        let x = xs[i % c]; let y = ys[i % c];
        assert(x.is_prefix_of(y));
        assert forall|t: int| 0 <= t < x.len() implies x[t] == y[t] by { assert(x =~= y.take(x.len() as int)); }
        assert(a[i] == b[i]);
        lemma_off_ext(a[i].is_init, a[i].exponent as int, x, y, tt(a, c, i), a[i].size as int);
    }
}
pub proof fn lemma_fpos_mono(hs: Seq<FrameHeader>, s: Bits, xs: Seq<Seq<i16>>, c: int, i: int, j: int)
    requires c >= 1, 0 <= i <= j <= hs.len(), forall|k: int| 0 <= k < hs.len() ==> #[trigger] hdr_ok(hs, s, xs, c, k)
    ensures 0 <= fpos(hs, xs, c, i) <= fpos(hs, xs, c, j), i < j ==> fpos(hs, xs, c, i) + flen(hs, xs, c, i) <= fpos(hs, xs, c, j)
    decreases j
{
    if j > 0 {
        assert(hdr_ok(hs, s, xs, c, j - 1));
        lemma_off_bound(hs[j - 1].is_init, hs[j - 1].exponent as int, xs[(j - 1) % c], tt(hs, c, j - 1), hs[j - 1].size as int);
        if i < j { lemma_fpos_mono(hs, s, xs, c, i, j - 1); } else { lemma_fpos_mono(hs, s, xs, c, 0, j - 1); }
    }
}
/// a header that is ok stays ok when the recording is extended behind it
pub proof fn lemma_hdr_ext(a: Seq<FrameHeader>, b: Seq<FrameHeader>, s: Bits, s2: Bits, xs: Seq<Seq<i16>>, ys: Seq<Seq<i16>>, c: int, i: int)
    requires c >= 1, xs.len() == c, ys.len() == c, 0 <= i < a.len() <= b.len(),
        forall|j: int| 0 <= j < a.len() ==> a[j] == #[trigger] b[j],
        forall|j: int| 0 <= j < a.len() ==> #[trigger] hdr_ok(a, s, xs, c, j),
        forall|k: int| 0 <= k < c ==> (#[trigger] xs[k]).is_prefix_of(ys[k]),
        same_below(s2, s, fpos(a, xs, c, a.len() as int)),
    ensures hdr_ok(b, s2, ys, c, i)
{
    lemma_fpos_ext(a, b, s, xs, ys, c, i);
    assert(hdr_ok(a, s, xs, c, i));
    lemma_mod_step(i, c);
    lemma_tt_ext(a, b, c, i);
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]).size >= 1 by { assert(hdr_ok(a, s, xs, c, j)); }
    lemma_tt_pos(a, c, i);
    let h = a[i]; let x = xs[i % c]; let y = ys[i % c]; let t = tt(a, c, i); let p = fpos(a, xs, c, i);
    assert(x.is_prefix_of(y));
    assert forall|t: int| 0 <= t < x.len() implies x[t] == y[t] by { assert(x =~= y.take(x.len() as int)); }
    lemma_fpos_mono(a, s, xs, c, i, a.len() as int);
    lemma_frame_frame(s, s2, fpos(a, xs, c, a.len() as int), p, h.is_init, h.exponent as int, x, t, h.size as int);
    lemma_frame_ext(s2, p, h.is_init, h.exponent as int, x, y, t, h.size as int);
    assert(a[i] == b[i]);
    if i % c != 0 { assert(i >= 1); assert(a[i - 1] == b[i - 1]); }
}
/// one more frame: header h with samples vals of the next channel in turn
#[verifier::spinoff_prover]
pub proof fn lemma_rec_push(hs: Seq<FrameHeader>, h: FrameHeader, s: Bits, s2: Bits, xs: Seq<Seq<i16>>, vals: Seq<i16>, c: int)
    requires
        rec_ok(hs, s, xs, c),
        same_below(s2, s, fpos(hs, xs, c, hs.len() as int)),
        h.size == vals.len(), h.size >= 1, 1 <= h.exponent <= 15, h.is_init == (hs.len() < c), h.bit_cursor == fpos(hs, xs, c, hs.len() as int),
        vals_ok(vals),
        hs.len() as int % c != 0 ==> h.size == hs[hs.len() - 1].size,
        ({ let x = xs[hs.len() as int % c];
           &&& frame_at(s2, fpos(hs, xs, c, hs.len() as int), h.is_init, h.exponent as int, x + vals, x.len() as int, vals.len() as int)
           &&& x.len() > 0 ==> h.stack_history@ =~= seq![xi(x, x.len() - 3), xi(x, x.len() - 2), xi(x, x.len() - 1)] }),
    ensures
        ({ let n = hs.len() as int; let k = n % c; let ys = xs.update(k, xs[k] + vals); let hs2 = hs.push(h);
           &&& rec_ok(hs2, s2, ys, c)
           &&& fpos(hs2, ys, c, n + 1) == fpos(hs, xs, c, n) + off(h.is_init, h.exponent as int, ys[k], xs[k].len() as int, vals.len() as int) })
{
    let n = hs.len() as int; let k = n % c; let x = xs[k]; let ys = xs.update(k, x + vals); let hs2 = hs.push(h);
    lemma_mod_step(n, c);
    assert forall|j: int| 0 <= j < c implies (#[trigger] xs[j]).is_prefix_of(ys[j]) by { if j == k { assert(xs[j] =~= ys[j].take(xs[j].len() as int)); } else { assert(xs[j] =~= ys[j].take(xs[j].len() as int)); } }
    assert(tt(hs, c, n) == xs[n % c].len());
    lemma_tt_ext(hs, hs2, c, n);
    lemma_fpos_ext(hs, hs2, s, xs, ys, c, n);
    assert(fpos(hs2, ys, c, n + 1) == fpos(hs2, ys, c, n) + flen(hs2, ys, c, n));
    assert forall|i: int| 0 <= i < hs2.len() implies #[trigger] hdr_ok(hs2, s2, ys, c, i) by {
        if i < n { lemma_hdr_ext(hs, hs2, s, s2, xs, ys, c, i); }
        else {
            assert forall|j: int| 0 <= j < hs.len() implies (#[trigger] hs[j]).size >= 1 by { assert(hdr_ok(hs, s, xs, c, j)); }
            lemma_tt_pos(hs, c, n);
            let y = ys[k]; let t = x.len() as int;
            if n >= c {
                assert(xi(y, t - 1) == xi(x, t - 1) && xi(y, t - 2) == xi(x, t - 2) && xi(y, t - 3) == xi(x, t - 3));
            }
        }
    }
    assert forall|i: int| hs2.len() <= i < hs2.len() + c implies ys[i % c].len() == #[trigger] tt(hs2, c, i) by {
        lemma_mod_step(i, c);
        if i < n + c {
            assert(tt(hs, c, i) == xs[i % c].len());
            lemma_tt_ext(hs, hs2, c, i);
            lemma_mod_window(n, i, c);
        } else {
            lemma_mod_step(n, c);
            assert(i == n + c);
            assert(i % c == k);
            assert(tt(hs2, c, i) == tt(hs2, c, n) + hs2[n].size);
        }
    }
    assert forall|j: int| 0 <= j < c implies vals_ok(#[trigger] ys[j]) by {
        assert(vals_ok(xs[j]));
        if j == k { assert forall|q: int| 0 <= q < ys[j].len() implies -32767 <= #[trigger] ys[j][q] by { if q >= x.len() { assert(ys[j][q] == vals[q - x.len()]); } else { assert(ys[j][q] == x[q]); } } }
    }
}
/// within a window of c numbers the remainders are different
pub proof fn lemma_mod_window(n: int, i: int, c: int)
    requires c >= 1, 0 <= n < i < n + c
    ensures i % c != n % c
{
    if i % c == n % c {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, c);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c);
        let a = i / c; let b = n / c;
        assert(i - n == c * (a - b)) by (nonlinear_arith) requires i == c * a + i % c, n == c * b + n % c, i % c == n % c;
        assert(false) by (nonlinear_arith) requires 0 < i - n < c, i - n == c * (a - b), c >= 1;
    }
}
