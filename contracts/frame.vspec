// Contracts for the frame codec
//@ file src/codec/adhoc.rs
//@ type CodecState keep_derives
//@ file src/codec/adhoc/audio_stream.rs
//@ type AudioStream
//@ fn AudioStream as Deref::deref
//@ keep_trait
//@ ret r
//@ spec
    ensures *r == self.stream
//@ fn AudioStream as DerefMut::deref_mut
//@ keep_trait
//@ ret r
//@ spec
    ensures *r == old(self).stream, *final(r) == final(self).stream, final(self).info == old(self).info

//@ file src/codec/adhoc/frame.rs
//@ type FrameCodec
//@ global
impl Clone for FrameCodec { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/* ---- what a frame looks like in the stream ---- */
pub open spec fn xi(x: Seq<i16>, t: int) -> i16 { if t < 0 { x[0] } else { x[t] } }
/// prediction for sample t from the samples before it
pub open spec fn pred_at(x: Seq<i16>, t: int) -> i16 { pred3(xi(x, t - 3), xi(x, t - 2), xi(x, t - 1)) }
pub open spec fn wsub(a: i16, b: i16) -> i16 {
    let d = a as int - b as int;
    (if d > 32767 { d - 65536 } else if d < -32768 { d + 65536 } else { d }) as i16
}
pub open spec fn resid(x: Seq<i16>, t: int) -> i16 { wsub(x[t], pred_at(x, t)) }
/// size in bits of sample t
pub open spec fn clen(init: bool, k: int, x: Seq<i16>, t: int) -> int { if init && t < 3 { 16 } else { rice_len(k, resid(x, t)) } }
/// size in bits of samples t0 .. t0+i
pub open spec fn off(init: bool, k: int, x: Seq<i16>, t0: int, i: int) -> int decreases i {
    if i <= 0 { 0 } else { off(init, k, x, t0, i - 1) + clen(init, k, x, t0 + i - 1) }
}
/// position p holds sample t
pub open spec fn code_at(s: Bits, p: int, init: bool, k: int, x: Seq<i16>, t: int) -> bool {
    if init && t < 3 { has_word(s, p, (x[t] as u16) as u128, 16) } else { has_rice(s, p, k, resid(x, t)) }
}
/// position p holds samples t0 .. t0+n of the channel x
pub open spec fn frame_at(s: Bits, p: int, init: bool, k: int, x: Seq<i16>, t0: int, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] code_at(s, p + off(init, k, x, t0, i), init, k, x, t0 + i)
}
/// the sample history is that of channel x after t samples
pub open spec fn hist_at(h: CircularStack<i16>, x: Seq<i16>, t: int) -> bool {
    &&& h.wf()
    &&& 0 <= t <= x.len()
    &&& (h.n() == 0) == (t == 0)
    &&& t > 0 ==> h.back(1) == xi(x, t - 1) && h.back(2) == xi(x, t - 2) && h.back(3) == xi(x, t - 3)
}
pub open spec fn tq_all(pcm: Seq<f32>) -> Seq<i16> { Seq::new(pcm.len(), |i: int| tq(pcm[i])) }
pub open spec fn vals_ok(x: Seq<i16>) -> bool { forall|i: int| 0 <= i < x.len() ==> -32767 <= #[trigger] x[i] }

pub proof fn lemma_hist_push(h: CircularStack<i16>, h2: CircularStack<i16>, x: Seq<i16>, t: int)
    requires hist_at(h, x, t), t < x.len(), h2.wf(), h2.n() > 0,
        h2.back(1) == x[t],
        h2.back(2) == (if h.n() == 0 { x[t] } else { h.back(1) }),
        h2.back(3) == (if h.n() == 0 { x[t] } else { h.back(2) }),
    ensures hist_at(h2, x, t + 1)
{}
pub proof fn lemma_rice_len_bound(k: int, e: i16)
    requires 0 <= k <= 15
    ensures 2 <= rice_len(k, e) <= 32768 + 17, k >= 1 ==> rice_len(k, e) <= 32767 + 17
{ lemma_rice_q_bound(mag(e) as u16, k as u16); assert((mag(e) as u16) >> (k as u16) >= 0); }
pub proof fn lemma_off_bound(init: bool, k: int, x: Seq<i16>, t0: int, i: int)
    requires 0 <= i, 1 <= k <= 15
    ensures 0 <= off(init, k, x, t0, i) <= i * 0x9000
    decreases i
{ if i > 0 { lemma_off_bound(init, k, x, t0, i - 1); lemma_rice_len_bound(k, resid(x, t0 + i - 1)); } }
/// with parameter 15 no sample takes more than 18 bits
pub proof fn lemma_off_15(init: bool, x: Seq<i16>, t0: int, i: int)
    requires 0 <= i
    ensures off(init, 15, x, t0, i) <= i * 18
    decreases i
{
    if i > 0 {
        lemma_off_15(init, x, t0, i - 1);
        let m = mag(resid(x, t0 + i - 1)) as u16;
        assert(m <= 32768 ==> (m >> 15u16) <= 1) by (bit_vector);
    }
}
pub proof fn lemma_off_mono(init: bool, k: int, x: Seq<i16>, t0: int, i: int, j: int)
    requires 0 <= i <= j, 1 <= k <= 15
    ensures off(init, k, x, t0, i) <= off(init, k, x, t0, j)
    decreases j - i
{ if i < j { lemma_off_mono(init, k, x, t0, i, j - 1); lemma_rice_len_bound(k, resid(x, t0 + j - 1)); } }
/// offsets and codes only look at the samples up to the one in question
pub proof fn lemma_off_ext(init: bool, k: int, x: Seq<i16>, y: Seq<i16>, t0: int, i: int)
    requires 0 <= i, 0 <= t0, t0 + i <= x.len(), t0 + i <= y.len(), init || t0 > 0, forall|t: int| 0 <= t < t0 + i ==> x[t] == y[t]
    ensures off(init, k, x, t0, i) == off(init, k, y, t0, i)
    decreases i
{ if i > 0 { lemma_off_ext(init, k, x, y, t0, i - 1); } }
/// a code written below n stays valid when only bits from n on change
pub proof fn lemma_code_frame(a: Bits, b: Bits, n: int, p: int, init: bool, k: int, x: Seq<i16>, t: int)
    requires same_below(b, a, n), code_at(a, p, init, k, x, t), p + clen(init, k, x, t) <= n, 0 <= k <= 15
    ensures code_at(b, p, init, k, x, t)
{
    if init && t < 3 { } else {
        let e = resid(x, t);
        let q = rice_q(k, e);
        assert(b(p) == a(p));
        assert(b(p + 1 + q) == a(p + 1 + q));
        assert forall|j: int| p + 1 <= j < p + 1 + q implies #[trigger] b(j) by { assert(a(j)); }
    }
}
pub proof fn lemma_frame_frame(a: Bits, b: Bits, m: int, p: int, init: bool, k: int, x: Seq<i16>, t0: int, n: int)
    requires same_below(b, a, m), frame_at(a, p, init, k, x, t0, n), p + off(init, k, x, t0, n) <= m, 1 <= k <= 15
    ensures frame_at(b, p, init, k, x, t0, n)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] code_at(b, p + off(init, k, x, t0, i), init, k, x, t0 + i) by {
        lemma_off_mono(init, k, x, t0, i + 1, n);
        lemma_code_frame(a, b, m, p + off(init, k, x, t0, i), init, k, x, t0 + i);
    }
}
pub proof fn lemma_frame_ext(s: Bits, p: int, init: bool, k: int, x: Seq<i16>, y: Seq<i16>, t0: int, n: int)
    requires frame_at(s, p, init, k, x, t0, n), 0 <= t0, init || t0 > 0, 0 <= n, t0 + n <= x.len(), t0 + n <= y.len(), forall|t: int| 0 <= t < t0 + n ==> x[t] == y[t]
    ensures frame_at(s, p, init, k, y, t0, n)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] code_at(s, p + off(init, k, y, t0, i), init, k, y, t0 + i) by {
        lemma_off_ext(init, k, x, y, t0, i);
        assert(code_at(s, p + off(init, k, x, t0, i), init, k, x, t0 + i));
    }
}

//@ fn FrameCodec::new
//@ ret r
//@ spec
    ensures r.state is Init, r.sample_history.wf(), r.sample_history.n() == 0, r.buffered_channel@.len() == 0

//@ fn FrameCodec::init
//@ spec
    ensures final(self).state is Init, final(self).sample_history.wf(), final(self).sample_history.n() == 0, final(self).buffered_channel@.len() == 0

//@ fn FrameCodec::state_mut
//@ ret r
//@ spec
    ensures *r == old(self).state, *final(r) == final(self).state, final(self).sample_history == old(self).sample_history, final(self).buffered_channel == old(self).buffered_channel

//@ fn FrameCodec::sample_history_mut
//@ ret r
//@ spec
    ensures *r == old(self).sample_history, *final(r) == final(self).sample_history, final(self).state == old(self).state, final(self).buffered_channel == old(self).buffered_channel

//@ fn FrameCodec::buffered_channel_mut
//@ ret r
//@ spec
    ensures *r == old(self).buffered_channel, *final(r) == final(self).buffered_channel, final(self).state == old(self).state, final(self).sample_history == old(self).sample_history

//@ fn FrameCodec::buffered_channel
//@ ret r
//@ spec
    ensures *r == self.buffered_channel

//@ global
pub open spec fn current_residual(current: i16, predicted: i16) -> i16 { wsub(current, predicted) }
pub proof fn lemma_cost(m: u16, k: u32)
    requires k <= 15
    ensures ((m as u32) >> k) == ((m >> (k as u16)) as u32), k >= 1 ==> ((m as u32) >> k) <= 0x7fff
{
    assert(k <= 15 ==> ((m as u32) >> k) == ((m >> (k as u16)) as u32)) by (bit_vector);
    assert(1 <= k && k <= 15 ==> ((m as u32) >> k) <= 0x7fff) by (bit_vector);
}
/// r is the cheapest parameter for coding `ys` after any channel with this history
pub open spec fn cheapest(h: CircularStack<i16>, ys: Seq<i16>, r: int) -> bool {
    forall|x: Seq<i16>, k: int| #[trigger] hist_at(h, x, x.len() as int) && 1 <= k <= 15 ==>
        off(false, r, x + ys, x.len() as int, ys.len() as int) <= #[trigger] off(false, k, x + ys, x.len() as int, ys.len() as int)
}
//@ fn FrameCodec::compute_optimal_divisor_exponent
//@ ret r
//@ opt min_chain
//@ attr
#[verifier::spinoff_prover]
//@ spec
    requires sample_history_ref.wf(), sample_history_ref.n() > 0 || remaining_samples@.len() == 0, remaining_samples@.len() <= 65535
    ensures 1 <= r <= 15, cheapest(*sample_history_ref, tq_all(remaining_samples@), r as int)
//@ entry
    let ghost h0 = *sample_history_ref;
    let ghost ys = tq_all(remaining_samples@);
//@ loop 0 label it
    invariant
        it.seq().len() == remaining_samples@.len(), remaining_samples@.len() <= 65535,
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == remaining_samples@[i],
        ys == tq_all(remaining_samples@), h0.n() > 0 || remaining_samples@.len() == 0,
        sample_history.wf(),
        forall|j: int| 1 <= j < 16 ==> #[trigger] bit_sum_table@[j] <= it.index@ * 0x8800,
        forall|j: int| 1 <= j < 16 && it.index@ > 0 ==> #[trigger] bit_sum_table@[j] > 0,
        forall|x: Seq<i16>| #[trigger] hist_at(h0, x, x.len() as int) ==> hist_at(sample_history, x + ys, x.len() + it.index@),
        forall|x: Seq<i16>, j: int| #[trigger] hist_at(h0, x, x.len() as int) && 1 <= j < 16 ==>
            #[trigger] bit_sum_table@[j] == off(false, j, x + ys, x.len() as int, it.index@ as int),
//@ loop 0 begin
    let ghost i0 = it.index@ as int;
    let ghost tab0 = bit_sum_table@;
    let ghost hist0 = sample_history;
//@ loop 1 label kt
    invariant
        0 <= i0 < 65535, i0 * 0x8800 <= 65535 * 0x8800,
        entropy <= 32768,
        forall|j: int| 1 <= j < 16 ==> #[trigger] tab0[j] <= i0 * 0x8800,
        forall|j: int| 1 <= j < 16 ==> #[trigger] bit_sum_table@[j] == (if j < k { tab0[j] + ((entropy >> (j as u32)) + 2 + j) } else { tab0[j] as int }),
        forall|j: int| 1 <= j < 16 ==> (#[trigger] (entropy >> (j as u32))) <= 0x7fff,
//@ loop 1 begin
    proof { assert((entropy >> (k as u32)) <= 0x7fff); lemma_cost(mag(ent0) as u16, k as u32); }
//@ loop 1 before
    let ghost ent0 = current_residual(current, predicted);
    proof {
        assert forall|j: int| 1 <= j < 16 implies (#[trigger] (entropy >> (j as u32))) <= 0x7fff by { lemma_cost(mag(ent0) as u16, j as u32); }
    }
//@ loop 2
    invariant
        __vx_i <= 16,
        __vx_min is Some ==> 1 <= __vx_min->0 < __vx_i,
        (forall|k: int| 1 <= k < 16 ==> #[trigger] bit_sum_table@[k] > 0) ==>
            (__vx_i > 1 ==> __vx_min is Some)
            && (forall|k: int| 1 <= k < __vx_i ==> bit_sum_table@[__vx_min->0 as int] <= #[trigger] bit_sum_table@[k]),
    decreases 16 - __vx_i
//@ loop 0 end
    proof {
        assert forall|x: Seq<i16>| #[trigger] hist_at(h0, x, x.len() as int) implies hist_at(sample_history, x + ys, x.len() + i0 + 1) by {
            assert(hist_at(hist0, x + ys, x.len() + i0));
            assert((x + ys)[x.len() + i0] == ys[i0]);
        }
        assert forall|x: Seq<i16>, j: int| #[trigger] hist_at(h0, x, x.len() as int) && 1 <= j < 16 implies
            #[trigger] bit_sum_table@[j] == off(false, j, x + ys, x.len() as int, i0 + 1) by {
            assert(hist_at(hist0, x + ys, x.len() + i0));
            assert((x + ys)[x.len() + i0] == ys[i0]);
            assert(tab0[j] == off(false, j, x + ys, x.len() as int, i0));
            lemma_cost(mag(ent0) as u16, j as u32);
            assert(ent0 == resid(x + ys, x.len() + i0));
        }
    }
//@ exit
    proof {
        assert forall|x: Seq<i16>, k: int| #[trigger] hist_at(h0, x, x.len() as int) && 1 <= k <= 15 implies
            off(false, __vx_r as int, x + ys, x.len() as int, ys.len() as int) <= #[trigger] off(false, k, x + ys, x.len() as int, ys.len() as int) by {
            if ys.len() > 0 {
                assert(bit_sum_table@[k] == off(false, k, x + ys, x.len() as int, ys.len() as int));
                assert(bit_sum_table@[__vx_r as int] == off(false, __vx_r as int, x + ys, x.len() as int, ys.len() as int));
            }
        }
    }

//@ global
/// the three samples the next prediction is made from
pub open spec fn last3(h: CircularStack<i16>) -> Seq<i16> { seq![h.back(3), h.back(2), h.back(1)] }
/// what is coded only depends on the channel through its last three samples
pub proof fn lemma_shift_off(h: CircularStack<i16>, x: Seq<i16>, ys: Seq<i16>, k: int, i: int)
    requires hist_at(h, x, x.len() as int), x.len() > 0, 0 <= i <= ys.len()
    ensures off(false, k, x + ys, x.len() as int, i) == off(false, k, last3(h) + ys, 3, i)
    decreases i
{
    if i > 0 {
        lemma_shift_off(h, x, ys, k, i - 1);
        lemma_shift_resid(h, x, ys, i - 1);
    }
}
pub proof fn lemma_shift_resid(h: CircularStack<i16>, x: Seq<i16>, ys: Seq<i16>, i: int)
    requires hist_at(h, x, x.len() as int), x.len() > 0, 0 <= i < ys.len()
    ensures resid(x + ys, x.len() + i) == resid(last3(h) + ys, 3 + i)
{
    let y = x + ys; let z = last3(h) + ys; let t = x.len() as int;
    assert(y[t + i] == ys[i] && z[3 + i] == ys[i]);
    assert forall|j: int| 1 <= j <= 3 implies xi(y, t + i - j) == #[trigger] xi(z, 3 + i - j) by {
        if i - j >= 0 { assert(y[t + i - j] == ys[i - j]); assert(z[3 + i - j] == ys[i - j]); }
        else if t + i - j >= 0 { assert(y[t + i - j] == x[t + i - j]); assert(h.back(1) == x[t - 1]); }
        else { assert(y[0] == x[0]); }
    }
    assert(xi(y, t + i - 1) == xi(z, 3 + i - 1));
    assert(xi(y, t + i - 2) == xi(z, 3 + i - 2));
    assert(xi(y, t + i - 3) == xi(z, 3 + i - 3));
}
pub proof fn lemma_shift_frame(h: CircularStack<i16>, x: Seq<i16>, ys: Seq<i16>, s: Bits, p: int, k: int, n: int)
    requires hist_at(h, x, x.len() as int), x.len() > 0, 0 <= n <= ys.len(), frame_at(s, p, false, k, last3(h) + ys, 3, n)
    ensures frame_at(s, p, false, k, x + ys, x.len() as int, n), off(false, k, x + ys, x.len() as int, n) == off(false, k, last3(h) + ys, 3, n)
{
    lemma_shift_off(h, x, ys, k, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] code_at(s, p + off(false, k, x + ys, x.len() as int, i), false, k, x + ys, x.len() + i) by {
        lemma_shift_off(h, x, ys, k, i);
        lemma_shift_resid(h, x, ys, i);
        assert(code_at(s, p + off(false, k, last3(h) + ys, 3, i), false, k, last3(h) + ys, 3 + i));
    }
}
pub proof fn lemma_shift_hist(h: CircularStack<i16>, h2: CircularStack<i16>, x: Seq<i16>, ys: Seq<i16>, n: int)
    requires hist_at(h, x, x.len() as int), x.len() > 0, 0 <= n <= ys.len(), hist_at(h2, last3(h) + ys, 3 + n)
    ensures hist_at(h2, x + ys, x.len() + n)
{
    let y = x + ys; let z = last3(h) + ys; let t = x.len() as int;
    assert forall|j: int| 1 <= j <= 3 implies xi(y, t + n - j) == #[trigger] xi(z, 3 + n - j) by {
        if n - j >= 0 { assert(y[t + n - j] == ys[n - j]); assert(z[3 + n - j] == ys[n - j]); }
        else if t + n - j >= 0 { assert(y[t + n - j] == x[t + n - j]); assert(h.back(1) == x[t - 1]); }
        else { assert(y[0] == x[0]); }
    }
    assert(xi(y, t + n - 1) == xi(z, 3 + n - 1));
    assert(xi(y, t + n - 2) == xi(z, 3 + n - 2));
    assert(xi(y, t + n - 3) == xi(z, 3 + n - 3));
}
pub proof fn lemma_off_init(k: int, x: Seq<i16>, i: int)
    requires 0 <= i <= 3
    ensures off(true, k, x, 0, i) == 16 * i
    decreases i
{ if i > 0 { lemma_off_init(k, x, i - 1); } }
/// the part of a first frame behind its first samples costs as much as any frame
pub proof fn lemma_off_split(k: int, x: Seq<i16>, m: int, i: int)
    requires 0 <= i, m == (if x.len() < 3 { x.len() as int } else { 3 }), m + i <= x.len()
    ensures off(true, k, x, 0, m + i) == 16 * m + off(false, k, x, m, i)
    decreases i
{ lemma_off_init(k, x, m); if i > 0 { lemma_off_split(k, x, m, i - 1); assert(m == 3); } }

//@ fn FrameCodec::encode_frame
//@ attr
#[verifier::spinoff_prover]
//@ spec
    requires
        1 <= pcm@.len() <= 65535,
        old(self).sample_history.wf(), (old(self).state is Init) == (old(self).sample_history.n() == 0), !(old(self).state is Decoding),
        old(stream).stream.wf(), old(stream).stream.pos() + pcm@.len() * 0x9000 + 0x10000 <= MAXBITS(),
        old(frame_headers).wf(), old(frame_headers).cur() < 0xffff_ffff,
    ensures
        final(self).state is Encoding, final(self).buffered_channel == old(self).buffered_channel,
        final(stream).info == old(stream).info, final(stream).stream.wf(),
        final(stream).stream.pos() < final(stream).stream.nbits(), grew(final(stream).stream, old(stream).stream),
        old(stream).stream.pos() <= final(stream).stream.pos() <= old(stream).stream.pos() + pcm@.len() * 18,
        same_below(final(stream).stream.bits(), old(stream).stream.bits(), old(stream).stream.pos()),
        final(frame_headers).wf(), final(frame_headers).cur() == old(frame_headers).cur() + 1, final(frame_headers).n() == final(frame_headers).cur(), old(frame_headers).tidy() ==> final(frame_headers).tidy(),
        ({
            let h = final(frame_headers)@[old(frame_headers).cur()];
            let p = old(stream).stream.pos();
            &&& final(frame_headers)@ =~= old(frame_headers)@.take(old(frame_headers).cur()).push(h)
            &&& h.size == pcm@.len() && h.bit_cursor == p && h.is_init == (old(self).state is Init) && 1 <= h.exponent <= 15
        }),
        ({
            let h = final(frame_headers)@[old(frame_headers).cur()];
            let ys = tq_all(pcm@);
            let p = old(stream).stream.pos();
            forall|x: Seq<i16>| #[trigger] hist_at(old(self).sample_history, x, x.len() as int) ==> {
                &&& hist_at(final(self).sample_history, x + ys, (x + ys).len() as int)
                &&& frame_at(final(stream).stream.bits(), p, h.is_init, h.exponent as int, x + ys, x.len() as int, ys.len() as int)
                &&& final(stream).stream.pos() == p + off(h.is_init, h.exponent as int, x + ys, x.len() as int, ys.len() as int)
                &&& x.len() > 0 ==> h.stack_history@ =~= last3(old(self).sample_history)
            }
        }),
        ({
            let h = final(frame_headers)@[old(frame_headers).cur()];
            let ys = tq_all(pcm@);
            forall|x: Seq<i16>, k: int| #[trigger] hist_at(old(self).sample_history, x, x.len() as int) && 1 <= k <= 15 ==>
                off(h.is_init, h.exponent as int, x + ys, x.len() as int, ys.len() as int) <= #[trigger] off(h.is_init, k, x + ys, x.len() as int, ys.len() as int)
        }),
//@ entry
    let ghost hist0 = self.sample_history;
    let ghost ys = tq_all(pcm@);
    let ghost p0 = stream.stream.pos();
    let ghost b0 = stream.stream.bits();
    let ghost st0 = stream.stream;
    let ghost info0 = stream.info;
//@ loop 0
    invariant
        pcm@.len() <= 65535, ys == tq_all(pcm@), num_samples_pre_written <= 3, num_samples_pre_written <= pcm@.len(),
        stream.stream.wf(), stream.stream.pos() == p0 + 16 * k, p0 + pcm@.len() * 0x9000 + 0x10000 <= MAXBITS(),
        k > 0 ==> stream.stream.pos() < stream.stream.nbits(),
        stream.info == info0, grew(stream.stream, st0),
        same_below(stream.stream.bits(), b0, p0),
        hist_at(*sample_history, ys, k as int),
        forall|i: int| 0 <= i < k ==> #[trigger] has_word(stream.stream.bits(), p0 + 16 * i, (ys[i] as u16) as u128, 16),
//@ loop 0 end
    proof {
        let p = p0 + 16 * (k as int);
        assert(truncated == ys[k as int]);
        assert(has_word(stream.stream.bits(), p, (ys[k as int] as u16) as u128, 16));
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] has_word(stream.stream.bits(), p0 + 16 * i, (ys[i] as u16) as u128, 16) by {
            if i < k { assert(has_word(bits_k, p0 + 16 * i, (ys[i] as u16) as u128, 16)); }
        }
    }
//@ loop 0 begin
    let ghost bits_k = stream.stream.bits();
//@ loop 1 label it
    invariant
        pcm@.len() <= 65535, ys == tq_all(pcm@), num_samples_pre_written == (if pcm@.len() < 3 { pcm@.len() as int } else { 3 }),
        it.seq().len() == pcm@.len() - num_samples_pre_written,
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == pcm@[num_samples_pre_written + i],
        1 <= divisor_exp <= 15, it.seq().len() > 0 ==> sample_history.n() > 0,
        stream.stream.wf(), p0 + pcm@.len() * 0x9000 + 0x10000 <= MAXBITS(),
        stream.stream.pos() == p0 + off(true, divisor_exp as int, ys, 0, num_samples_pre_written + it.index@),
        stream.stream.pos() < stream.stream.nbits(), stream.info == info0, grew(stream.stream, st0),
        same_below(stream.stream.bits(), b0, p0),
        hist_at(*sample_history, ys, num_samples_pre_written + it.index@),
        frame_at(stream.stream.bits(), p0, true, divisor_exp as int, ys, 0, num_samples_pre_written + it.index@),
        forall|k: int| 1 <= k <= 15 ==> off(true, divisor_exp as int, ys, 0, ys.len() as int) <= #[trigger] off(true, k, ys, 0, ys.len() as int),
//@ loop 1 before
    proof {
        let m = num_samples_pre_written as int;
        lemma_off_init(divisor_exp as int, ys, m);
        assert forall|i: int| 0 <= i < m implies #[trigger] code_at(stream.stream.bits(), p0 + off(true, divisor_exp as int, ys, 0, i), true, divisor_exp as int, ys, 0 + i) by {
            lemma_off_init(divisor_exp as int, ys, i);
            assert(has_word(stream.stream.bits(), p0 + 16 * i, (ys[i] as u16) as u128, 16));
        }
        let n = ys.len() as int;
        let xm = ys.take(m);
        let ym = tq_all(pcm@.subrange(m, n));
        assert(ym =~= ys.subrange(m, n));
        assert(xm + ym =~= ys);
        assert(hist_at(*sample_history, xm, xm.len() as int));
        assert forall|k: int| 1 <= k <= 15 implies off(true, divisor_exp as int, ys, 0, n) <= #[trigger] off(true, k, ys, 0, n) by {
            lemma_off_split(k, ys, m, n - m);
            lemma_off_split(divisor_exp as int, ys, m, n - m);
            assert(off(false, divisor_exp as int, xm + ym, xm.len() as int, ym.len() as int) <= off(false, k, xm + ym, xm.len() as int, ym.len() as int));
        }
    }
//@ loop 1 begin
    let ghost t0 = num_samples_pre_written + it.index@;
    let ghost hist_k = *sample_history;
    let ghost bits_k = stream.stream.bits();
    let ghost pos_k = stream.stream.pos();
    proof { lemma_off_bound(true, divisor_exp as int, ys, 0, t0); }
//@ before stream.write_compressed(
    proof { lemma_rice_len_bound(divisor_exp as int, entropy); }
//@ loop 1 end
    proof {
        assert(current == ys[t0]);
        assert(entropy == resid(ys, t0));
        lemma_hist_push(hist_k, *sample_history, ys, t0);
        lemma_frame_frame(bits_k, stream.stream.bits(), pos_k, p0, true, divisor_exp as int, ys, 0, t0);
        assert(code_at(stream.stream.bits(), p0 + off(true, divisor_exp as int, ys, 0, t0), true, divisor_exp as int, ys, 0 + t0));
    }
//@ loop 2 label it
    invariant
        pcm@.len() <= 65535, ys == tq_all(pcm@), hist0.n() > 0, hist0.wf(), zs == last3(hist0) + ys,
        it.seq().len() == pcm@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == pcm@[i],
        1 <= divisor_exp <= 15,
        stream.stream.wf(), p0 + pcm@.len() * 0x9000 + 0x10000 <= MAXBITS(),
        stream.stream.pos() == p0 + off(false, divisor_exp as int, zs, 3, it.index@ as int),
        it.index@ > 0 ==> stream.stream.pos() < stream.stream.nbits(), stream.info == info0, grew(stream.stream, st0),
        same_below(stream.stream.bits(), b0, p0),
        hist_at(*sample_history, zs, 3 + it.index@),
        frame_at(stream.stream.bits(), p0, false, divisor_exp as int, zs, 3, it.index@ as int),
//@ loop 2 before
    let ghost zs = last3(hist0) + ys;
    proof { assert(zs.take(3) =~= last3(hist0)); }
//@ loop 2 begin
    let ghost t0 = it.index@ as int;
    let ghost hist_k = *sample_history;
    let ghost bits_k = stream.stream.bits();
    let ghost pos_k = stream.stream.pos();
    proof { lemma_off_bound(false, divisor_exp as int, zs, 3, t0); }
//@ loop 2 end
    proof {
        assert(current == zs[3 + t0]);
        assert(entropy == resid(zs, 3 + t0));
        lemma_hist_push(hist_k, *sample_history, zs, 3 + t0);
        lemma_frame_frame(bits_k, stream.stream.bits(), pos_k, p0, false, divisor_exp as int, zs, 3, t0);
        assert(code_at(stream.stream.bits(), p0 + off(false, divisor_exp as int, zs, 3, t0), false, divisor_exp as int, zs, 3 + t0));
    }
//@ exit
    proof {
        let h = frame_headers@[old(frame_headers).cur()];
        let k0 = h.exponent as int;
        let n = ys.len() as int;
        let s = stream.stream.bits();
        assert(tq_all(pcm@.subrange(0, n)) =~= ys);
        if old(self).state is Init {
            let m = if n < 3 { n } else { 3int };
            assert(tq_all(pcm@.subrange(m, n)) =~= ys.subrange(m, n));
            lemma_off_bound(true, k0, ys, 0, n);
            lemma_off_15(true, ys, 0, n);
            assert(off(true, k0, ys, 0, n) <= off(true, 15, ys, 0, n));
            assert forall|x: Seq<i16>| #[trigger] hist_at(hist0, x, x.len() as int) implies x + ys =~= ys by {}
        } else {
            let zs = last3(hist0) + ys;
            lemma_off_bound(false, k0, zs, 3, n);
            lemma_off_15(false, zs, 3, n);
            assert(hist_at(hist0, last3(hist0), 3));
            assert(off(false, k0, zs, 3, n) <= off(false, 15, zs, 3, n));
            assert forall|x: Seq<i16>| #[trigger] hist_at(hist0, x, x.len() as int) implies
                hist_at(self.sample_history, x + ys, x.len() + n) && frame_at(s, p0, false, k0, x + ys, x.len() as int, n)
                && stream.stream.pos() == p0 + off(false, k0, x + ys, x.len() as int, n) by {
                lemma_shift_hist(hist0, self.sample_history, x, ys, n);
                lemma_shift_frame(hist0, x, ys, s, p0, k0, n);
            }
        }
    }

//@ global
pub open spec fn nzs(x: Seq<i16>, a: int, n: int) -> Seq<f32> { Seq::new(n as nat, |i: int| nz(x[a + i])) }
/// the stream holds, at its cursor, the frame with this header as samples t0.. of channel x
pub open spec fn ready(h: CircularStack<i16>, s: Bits, p: int, nbits: int, hd: FrameHeader, init: bool, x: Seq<i16>, t0: int) -> bool {
    &&& hist_at(h, x, t0)
    &&& init == (t0 == 0)
    &&& t0 + hd.size <= x.len()
    &&& vals_ok(x)
    &&& 1 <= hd.exponent <= 15
    &&& frame_at(s, p, init, hd.exponent as int, x, t0, hd.size as int)
    &&& p + off(init, hd.exponent as int, x, t0, hd.size as int) <= nbits
}
/// what the reading side needs of any stream, damaged or not; `cur` frames have been read
pub open spec fn stream_ok(st: BitStream, cur: int) -> bool {
    &&& st.wf()
    &&& silent(st.bits())
    &&& st.pos() <= SILENT() + 0x20_0000 * cur
    &&& st.nbits() <= SILENT() + 0x40_0000_0000_0000
}
pub proof fn lemma_wsub(a: i16, b: i16)
    ensures ({ let s = b as int + wsub(a, b) as int; (if s > 32767 { s - 65536 } else if s < -32768 { s + 65536 } else { s }) == a as int })
{}
pub proof fn lemma_ready_step(h: CircularStack<i16>, s: Bits, p: int, nbits: int, hd: FrameHeader, init: bool, x: Seq<i16>, t0: int, i: int)
    requires ready(h, s, p, nbits, hd, init, x, t0), 0 <= i < hd.size
    ensures ({ let q = p + off(init, hd.exponent as int, x, t0, i);
        code_at(s, q, init, hd.exponent as int, x, t0 + i) && p <= q < nbits && q + clen(init, hd.exponent as int, x, t0 + i) <= nbits })
{
    lemma_off_mono(init, hd.exponent as int, x, t0, i + 1, hd.size as int);
    lemma_off_bound(init, hd.exponent as int, x, t0, i);
    lemma_rice_len_bound(hd.exponent as int, resid(x, t0 + i));
    assert(code_at(s, p + off(init, hd.exponent as int, x, t0, i), init, hd.exponent as int, x, t0 + i));
}

//@ fn FrameCodec::decode_frame
//@ ret r
//@ opt opt_map
//@ attr
#[verifier::spinoff_prover]
//@ spec
    requires
        old(self).sample_history.wf(), !(old(self).state is Encoding),
        old(frame_info).readable(), 0 <= old(frame_info).cur(), old(frame_info).n() <= 0xffff_ffff,
        stream_ok(old(stream).stream, old(frame_info).cur()),
    ensures
        final(frame_info).readable(), final(frame_info).n() == old(frame_info).n(), final(frame_info)@ =~= old(frame_info)@, old(frame_info).wf() ==> final(frame_info).wf(), final(frame_info).is_init_frame_list == old(frame_info).is_init_frame_list,
        final(frame_info).cur() == (if old(frame_info).cur() < old(frame_info).n() { old(frame_info).cur() + 1 } else { old(frame_info).cur() }),
        stream_ok(final(stream).stream, final(frame_info).cur()),
        final(stream).info == old(stream).info, final(stream).stream.bits() =~= old(stream).stream.bits(), final(stream).stream.nbits() >= old(stream).stream.nbits(),
        final(self).sample_history.wf(),
        old(frame_info).cur() >= old(frame_info).n() ==> r is None && *final(self) == *old(self) && *final(stream) == *old(stream),
        old(frame_info).cur() < old(frame_info).n() ==> ({
            let hd = old(frame_info).hdr(old(frame_info).cur());
            &&& r == Some(hd.size as usize)
            &&& final(self).state is Decoding
            &&& final(self).buffered_channel@.len() == old(self).buffered_channel@.len() + hd.size
            &&& forall|x: Seq<i16>, t0: int| #[trigger] ready(old(self).sample_history, old(stream).stream.bits(), old(stream).stream.pos(), old(stream).stream.nbits(), hd, old(self).state is Init, x, t0) ==> {
                &&& hist_at(final(self).sample_history, x, t0 + hd.size)
                &&& final(self).buffered_channel@ =~= old(self).buffered_channel@ + nzs(x, t0, hd.size as int)
                &&& final(stream).stream.pos() == old(stream).stream.pos() + off(old(self).state is Init, hd.exponent as int, x, t0, hd.size as int)
            }
        }),
//@ entry
    let ghost h0 = self.sample_history;
    let ghost init0 = self.state is Init;
    let ghost q0 = self.buffered_channel@;
    let ghost p0 = stream.stream.pos(); let ghost b0 = stream.stream.bits(); let ghost n0 = stream.stream.nbits(); let ghost info0 = stream.info;
    let ghost c0 = frame_info.cur();
    let ghost hd = frame_info.hdr(frame_info.cur());
//@ loop 0 label it
    invariant
        stream.stream.wf(), stream.info == info0, stream.stream.bits() =~= b0, silent(b0), n0 <= stream.stream.nbits() <= SILENT() + 0x40_0000_0000_0000,
        p0 <= SILENT() + 0x20_0000 * c0, 0 <= c0 < 0xffff_ffff,
        stream.stream.pos() == p0 + 16 * it.index@, it.index@ <= num_samples_pre_read <= 3, num_samples_pre_read == (if hd.size < 3 { hd.size as int } else { 3 }),
        it.seq().len() == num_samples_pre_read,
        sample_history.wf(), init0,
        forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) ==> hist_at(*sample_history, x, t0 + it.index@),
//@ loop 0 begin
    let ghost i0 = it.index@ as int;
    let ghost hist_k = *sample_history;
//@ loop 0 end
    proof {
        assert forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) implies hist_at(*sample_history, x, t0 + i0 + 1) by {
            lemma_ready_step(h0, b0, p0, n0, hd, init0, x, t0, i0);
            lemma_off_init(hd.exponent as int, x, i0);
            lemma_word16(b0, p0 + 16 * i0, x[i0]);
            assert(samp == x[i0]);
            lemma_hist_push(hist_k, *sample_history, x, t0 + i0);
        }
    }
//@ loop 1 label kt
    invariant
        kt.seq().len() == num_samples_pre_read, num_samples_pre_read == (if hd.size < 3 { hd.size as int } else { 3 }), kt.index@ <= num_samples_pre_read, init0,
        forall|i: int| 0 <= i < kt.seq().len() ==> #[trigger] kt.seq()[i] == i,
        sample_history.wf(), sample_buffer@.len() == q0.len() + kt.index@,
        forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) ==> hist_at(*sample_history, x, t0 + num_samples_pre_read) && sample_buffer@ =~= q0 + nzs(x, t0, kt.index@ as int),
//@ loop 1 begin
    let ghost i0 = kt.index@ as int;
    let ghost buf_k = sample_buffer@;
//@ loop 1 end
    proof {
        assert forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) implies sample_buffer@ =~= q0 + nzs(x, t0, i0 + 1) by {
            assert(sample_history.back(offset as int) == x[t0 + i0]);
            assert(buf_k =~= q0 + nzs(x, t0, i0));
        }
    }
//@ loop 2 label it
    invariant
        stream.stream.wf(), stream.info == info0, stream.stream.bits() =~= b0, silent(b0), n0 <= stream.stream.nbits() <= SILENT() + 0x40_0000_0000_0000,
        p0 <= SILENT() + 0x20_0000 * c0, 0 <= c0 < 0xffff_ffff, size == hd.size, exponent == hd.exponent, exponent <= 15, init0 == true,
        num_samples_pre_read == (if hd.size < 3 { hd.size as int } else { 3 }), 
        stream.stream.pos() <= SILENT() + 0x20_0000 * c0 + 18 * (num_samples_pre_read + it.index@),
        it.seq().len() == hd.size - num_samples_pre_read, samples_read == num_samples_pre_read + it.index@,
        sample_history.wf(), sample_buffer@.len() == q0.len() + num_samples_pre_read + it.index@,
        forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) ==> hist_at(*sample_history, x, t0 + num_samples_pre_read + it.index@) && sample_buffer@ =~= q0 + nzs(x, t0, num_samples_pre_read + it.index@)
            && stream.stream.pos() == p0 + off(init0, hd.exponent as int, x, t0, num_samples_pre_read + it.index@),
//@ loop 2 begin
    let ghost i0 = (num_samples_pre_read + it.index@) as int;
    let ghost hist_k = *sample_history;
    let ghost buf_k = sample_buffer@;
    let ghost pos_k = stream.stream.pos();
//@ loop 2 end
    proof {
        assert forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) implies
            hist_at(*sample_history, x, t0 + i0 + 1) && sample_buffer@ =~= q0 + nzs(x, t0, i0 + 1) && stream.stream.pos() == p0 + off(init0, hd.exponent as int, x, t0, i0 + 1) by {
            lemma_ready_step(h0, b0, p0, n0, hd, init0, x, t0, i0);
            assert(has_rice(b0, pos_k, exponent as int, resid(x, t0 + i0)));
            assert(entropy == resid(x, t0 + i0));
            assert(predicted == pred_at(x, t0 + i0));
            lemma_wsub(x[t0 + i0], predicted);
            assert(current == x[t0 + i0]);
            axiom_nz_unclamped(current);
            lemma_hist_push(hist_k, *sample_history, x, t0 + i0);
            assert(buf_k =~= q0 + nzs(x, t0, i0));
        }
    }
//@ loop 3 label it
    invariant
        stream.stream.wf(), stream.info == info0, stream.stream.bits() =~= b0, silent(b0), n0 <= stream.stream.nbits() <= SILENT() + 0x40_0000_0000_0000,
        p0 <= SILENT() + 0x20_0000 * c0, 0 <= c0 < 0xffff_ffff, size == hd.size, exponent == hd.exponent, exponent <= 15, init0 == false,
        
        stream.stream.pos() <= SILENT() + 0x20_0000 * c0 + 18 * (it.index@),
        it.seq().len() == hd.size, samples_read == it.index@,
        sample_history.wf(), sample_buffer@.len() == q0.len() + it.index@,
        forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) ==> hist_at(*sample_history, x, t0 + it.index@) && sample_buffer@ =~= q0 + nzs(x, t0, it.index@)
            && stream.stream.pos() == p0 + off(init0, hd.exponent as int, x, t0, it.index@),
//@ loop 3 begin
    let ghost i0 = it.index@ as int;
    let ghost hist_k = *sample_history;
    let ghost buf_k = sample_buffer@;
    let ghost pos_k = stream.stream.pos();
//@ loop 3 end
    proof {
        assert forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) implies
            hist_at(*sample_history, x, t0 + i0 + 1) && sample_buffer@ =~= q0 + nzs(x, t0, i0 + 1) && stream.stream.pos() == p0 + off(init0, hd.exponent as int, x, t0, i0 + 1) by {
            lemma_ready_step(h0, b0, p0, n0, hd, init0, x, t0, i0);
            assert(has_rice(b0, pos_k, exponent as int, resid(x, t0 + i0)));
            assert(entropy == resid(x, t0 + i0));
            assert(predicted == pred_at(x, t0 + i0));
            lemma_wsub(x[t0 + i0], predicted);
            assert(current == x[t0 + i0]);
            axiom_nz_unclamped(current);
            lemma_hist_push(hist_k, *sample_history, x, t0 + i0);
            assert(buf_k =~= q0 + nzs(x, t0, i0));
        }
    }
//@ loop 2 before
    proof {
        assert forall|x: Seq<i16>, t0: int| #[trigger] ready(h0, b0, p0, n0, hd, init0, x, t0) implies
            stream.stream.pos() == p0 + off(init0, hd.exponent as int, x, t0, num_samples_pre_read as int) by { lemma_off_init(hd.exponent as int, x, num_samples_pre_read as int); }
    }
