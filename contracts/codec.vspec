// Contracts for the ADHOC codec itself
//@ file src/math/noise.rs
//@ type PseudoRandom
//@ global
/// the values the dither noise takes; that they lie in [-1, 1] is Kani: leaf_noise_unit
pub open spec fn unit(x: f32) -> bool {
    exists|a: u64, b: u64| a < 16384 && b < 16384 && x == fadd(fmul(fdiv(#[trigger] f32_of(a), 16384.0f32), -1.0f32), fmul(fdiv(#[trigger] f32_of(b), 16384.0f32), 1.0f32))
}
impl PseudoRandom { pub open spec fn wf(&self) -> bool { self.sequence < 1_000_000 } }
pub proof fn lemma_and14(x: u64)
    ensures x & 16383 < 16384
{ assert(x & 16383 < 16384) by (bit_vector); }
//@ fn PseudoRandom::rand
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf()
//@ fn PseudoRandom::triangle
//@ opt generator
//@ opt floats
//@ rename triangle_item
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), unit(r)
//@ exit
    proof { assert forall|x: u64| #[trigger] (x & 16383) < 16384 by { lemma_and14(x); } }
//@ fn PseudoRandom::new
//@ ret r
//@ spec
    ensures r.sequence == seed
//@ file src/codec/adhoc/audio_stream.rs
//@ fn AudioStream::new
//@ ret r
//@ spec
    ensures r.info is None, r.stream.wf(), r.stream.pos() == 0, r.stream.binary@.len() == 0
//@ fn AudioStream::set_info
//@ spec
    ensures final(self).info == info, final(self).stream == old(self).stream
//@ fn AudioStream::info
//@ ret r
//@ spec
    ensures r == self.info
//@ file src/codec/adhoc.rs
//@ type AdhocCodec
//@ consts MAX_DECODE_ATTEMPTS
//@ global
/* ---- quantisation ---- */
/// what a sample is turned into before it is coded
pub open spec fn dith(s: f32, noise: f32, inv: f32) -> f32 { fmul(fadd(s, fmul(fmul(noise, 0.001f32), fsub(1.0f32, inv))), inv) }
/// v is a coded value of sample s
pub open spec fn dithered(s: f32, d: f32, inv: f32) -> bool { exists|noise: f32| unit(noise) && d == #[trigger] dith(s, noise, inv) }
pub open spec fn qrel(inv: f32, s: f32, v: i16) -> bool { exists|d: f32| #[trigger] dithered(s, d, inv) && v == tq(d) }
/// vals are the coded values of n sets of c interleaved samples
pub open spec fn coded(pcm: Seq<f32>, vals: Seq<Seq<i16>>, c: int, n: int, inv: f32) -> bool {
    &&& vals.len() == c
    &&& forall|j: int| 0 <= j < c ==> (#[trigger] vals[j]).len() == n
    &&& forall|j: int, t: int| 0 <= j < c && 0 <= t < n ==> qrel(inv, #[trigger] pcm[t * c + j], #[trigger] vals[j][t])
}
/* ---- the codec as a recording ---- */
pub open spec fn app(xs: Seq<Seq<i16>>, vals: Seq<Seq<i16>>, k: int) -> Seq<Seq<i16>> { Seq::new(xs.len(), |j: int| if j < k { xs[j] + vals[j] } else { xs[j] }) }
pub open spec fn chan_safe(f: FrameCodec) -> bool { f.sample_history.wf() && (f.state is Init) == (f.sample_history.n() == 0) && !(f.state is Decoding) }
pub open spec fn chan_enc(f: FrameCodec, x: Seq<i16>) -> bool { chan_safe(f) && hist_at(f.sample_history, x, x.len() as int) }
/// everything before the cursors is the recording of xs, ready to be continued
pub open spec fn enc_parts(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>) -> bool {
    let hs = fh@.take(fh.cur());
    &&& rec_ok(hs, st.stream.bits(), xs, c)
    &&& st.stream.pos() == fpos(hs, xs, c, fh.cur())
    &&& st.stream.pos() <= st.stream.nbits()
    &&& forall|k: int| 0 <= k < c ==> chan_enc(list[k], #[trigger] xs[k])
}
impl AdhocCodec {
    pub open spec fn c(&self) -> int { self.stream.info->0.channels as int }
    pub open spec fn hs(&self) -> Seq<FrameHeader> { self.frame_header_list@ }
    pub open spec fn ready(&self) -> bool { self.stream.info is Some && self.c() >= 1 && self.seq.wf() && self.channel_state_list@.len() == self.c() }
    /// in a state in which audio can be encoded
    pub open spec fn enc_safe(&self) -> bool {
        &&& self.ready() && self.frame_header_list.wf() && self.stream.stream.wf()
        &&& self.frame_header_list.cur() % self.c() == 0
        &&& forall|k: int| 0 <= k < self.c() ==> chan_safe(#[trigger] self.channel_state_list@[k])
    }
    pub open spec fn enc_ok(&self, xs: Seq<Seq<i16>>) -> bool {
        self.enc_safe() && enc_parts(self.channel_state_list@, self.stream, self.frame_header_list, self.c(), xs)
    }
    /// room for n more sets of samples within the sizes the contracts cover
    pub open spec fn room(&self, n: int) -> bool {
        &&& self.stream.stream.pos() + (n * self.c()) * 18 + 0x1_0000_0000 <= MAXBITS()
        &&& self.frame_header_list.cur() + (n / 65535 + 1) * self.c() <= 0xffff_ffff
    }
    /// nothing but the coding state has changed
    pub open spec fn same_setup(&self, o: &AdhocCodec) -> bool {
        self.stream.info == o.stream.info && self.scale == o.scale && self.inv_scale == o.inv_scale && self.compression_level == o.compression_level
    }
}
pub proof fn lemma_block_room(len: int, c: int, n: int)
    requires c >= 1, len >= 0, len % c == 0, n == len / c, 1 <= n <= 65535
    ensures len == n * c, (n / 65535 + 1) * c >= c
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len, c);
    assert(c * n == n * c) by (nonlinear_arith);
    assert((n / 65535 + 1) * c >= c) by (nonlinear_arith) requires n / 65535 >= 0, c >= 1;
}
pub proof fn lemma_cell(t: int, n: int, k: int, c: int)
    requires 0 <= t < n, 0 <= k < c
    ensures 0 <= t * c, t * c + k < n * c, 0 <= t * c + k, t * c <= n * c
{ assert(t * c + c <= n * c) by (nonlinear_arith) requires t + 1 <= n, c >= 0; assert(0 <= t * c) by (nonlinear_arith) requires t >= 0, c >= 0; }
pub proof fn lemma_mod_plus(a: int, k: int, c: int)
    requires a >= 0, a % c == 0, 0 <= k < c
    ensures (a + k) % c == k
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c);
    let q = a / c;
    assert(q * c == c * q) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + k, c, q, k);
}
pub proof fn lemma_coded_app(pcm: Seq<f32>, block: Seq<f32>, vals: Seq<Seq<i16>>, v: Seq<Seq<i16>>, c: int, m: int, k: int, n: int, inv: f32)
    requires c >= 1, 0 <= m, 0 <= k, m + k <= n, n * c <= pcm.len(), coded(pcm, vals, c, m, inv), coded(block, v, c, k, inv), block =~= pcm.subrange(m * c, (m + k) * c)
    ensures coded(pcm, app(vals, v, c), c, m + k, inv)
{
    let v2 = app(vals, v, c);
    lemma_split_sets(n, m, k, c);
    assert(0 <= m * c) by (nonlinear_arith) requires m >= 0, c >= 1;
    assert forall|j: int, t: int| 0 <= j < c && 0 <= t < m + k implies qrel(inv, #[trigger] pcm[t * c + j], #[trigger] v2[j][t]) by {
        assert(v2[j] == vals[j] + v[j]);
        if t < m { assert(v2[j][t] == vals[j][t]); assert(qrel(inv, pcm[t * c + j], vals[j][t])); }
        else {
            let u = t - m;
            assert(v2[j][t] == v[j][u]);
            lemma_cell(u, k, j, c);
            assert(u * c + j + m * c == t * c + j) by (nonlinear_arith) requires u == t - m;
            assert(block[u * c + j] == pcm[t * c + j]);
        }
    }
}
pub proof fn lemma_app_app(xs: Seq<Seq<i16>>, vals: Seq<Seq<i16>>, v: Seq<Seq<i16>>, c: int)
    requires xs.len() == c, vals.len() == c, v.len() == c
    ensures app(app(xs, vals, c), v, c) =~= app(xs, app(vals, v, c), c)
{
    assert forall|j: int| 0 <= j < c implies #[trigger] app(app(xs, vals, c), v, c)[j] =~= app(xs, app(vals, v, c), c)[j] by {}
}
pub proof fn lemma_split_sets(n: int, m: int, k: int, c: int)
    requires c >= 1, 0 <= m, 0 <= k, m + k <= n
    ensures (m + k) * c == m * c + k * c, m * c + k * c <= n * c, (n - m) * c == n * c - m * c, 0 <= k * c
{ 
    assert((m + k) * c == m * c + k * c) by (nonlinear_arith);
    assert((m + k) * c <= n * c) by (nonlinear_arith) requires m + k <= n, c >= 1;
    assert((n - m) * c == n * c - m * c) by (nonlinear_arith);
    assert(0 <= k * c) by (nonlinear_arith) requires k >= 0, c >= 1;
}
pub proof fn lemma_whole_sets(len: int, c: int)
    requires c >= 1, len >= 0
    ensures 0 <= (len / c) * c <= len, len / c >= 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len, c);
    assert(c * (len / c) == (len / c) * c) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_bound(len, c);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(len, c);
}
/// one more frame, of channel k
#[verifier::spinoff_prover]
pub proof fn lemma_enc_step(list: Seq<FrameCodec>, f2: FrameCodec, st: AudioStream, st2: AudioStream, fh: FrameHeaders, fh2: FrameHeaders, c: int, k: int, xs: Seq<Seq<i16>>, ys: Seq<i16>)
    requires
        enc_parts(list, st, fh, c, xs), c >= 1, 0 <= k < c, list.len() == c, fh.wf(), fh.cur() % c == k,
        same_below(st2.stream.bits(), st.stream.bits(), st.stream.pos()), st2.stream.pos() <= st2.stream.nbits(),
        fh2.cur() == fh.cur() + 1, fh2.n() == fh2.cur(), vals_ok(ys), chan_safe(f2),
        ({
            let h = fh2@[fh.cur()]; let x = xs[k]; let p = st.stream.pos();
            &&& fh2@ =~= fh@.take(fh.cur()).push(h)
            &&& h.size == ys.len() && h.size >= 1 && h.bit_cursor == p && h.is_init == (list[k].state is Init) && 1 <= h.exponent <= 15
            &&& k != 0 ==> h.size == fh@[fh.cur() - 1].size
            &&& hist_at(f2.sample_history, x + ys, (x + ys).len() as int)
            &&& frame_at(st2.stream.bits(), p, h.is_init, h.exponent as int, x + ys, x.len() as int, ys.len() as int)
            &&& st2.stream.pos() == p + off(h.is_init, h.exponent as int, x + ys, x.len() as int, ys.len() as int)
            &&& x.len() > 0 ==> h.stack_history@ =~= last3(list[k].sample_history)
        }),
    ensures enc_parts(list.update(k, f2), st2, fh2, c, xs.update(k, xs[k] + ys))
{
    let hs = fh@.take(fh.cur()); let h = fh2@[fh.cur()]; let x = xs[k]; let n = fh.cur();
    assert(hs.len() == n);
    assert(fh2@.take(fh2.cur()) =~= hs.push(h));
    lemma_mod_step(n, c);
    assert(xs[n % c].len() == tt(hs, c, n));
    assert forall|j: int| 0 <= j < hs.len() implies (#[trigger] hs[j]).size >= 1 by { assert(hdr_ok(hs, st.stream.bits(), xs, c, j)); }
    lemma_tt_pos(hs, c, n);
    assert(chan_enc(list[k], xs[k]));
    if n % c != 0 { assert(hs[n - 1] == fh@[n - 1]); }
    lemma_rec_push(hs, h, st.stream.bits(), st2.stream.bits(), xs, ys, c);
    assert forall|j: int| 0 <= j < c implies chan_enc(list.update(k, f2)[j], #[trigger] xs.update(k, x + ys)[j]) by { assert(chan_enc(list[j], xs[j])); }
}
//@ fn AdhocCodec::new
//@ ret r
//@ spec
    ensures r.stream.info is None, r.stream.stream.wf(), r.stream.stream.binary@.len() == 0, r.stream.stream.pos() == 0,
        r.frame_header_list.wf(), r.frame_header_list.tidy(), r.frame_header_list.n() == 0, r.channel_state_list@.len() == 0,
        r.compression_level == 0, r.scale == 1.0f32, r.inv_scale == 1.0f32, r.seq.wf(),
//@ fn AdhocCodec::info
//@ ret r
//@ spec
    requires self.stream.info is Some
    ensures Some(r) == self.stream.info
//@ fn AdhocCodec::encode_block
//@ opt floats channel_samples noise inv_scale
//@ opt endless seq.triangle() => seq.triangle_item()
//@ attr
#[verifier::spinoff_prover]
//@ spec
    requires
        old(self).enc_safe(), interleaved_pcm@.len() % (old(self).c() as nat) == 0, 1 <= interleaved_pcm@.len() / (old(self).c() as nat) <= 65535,
        old(self).stream.stream.pos() + interleaved_pcm@.len() * 18 + 0x1_0000_0000 <= MAXBITS(), old(self).frame_header_list.cur() + old(self).c() <= 0xffff_ffff,
    ensures
        final(self).enc_safe(), final(self).same_setup(old(self)), old(self).frame_header_list.tidy() ==> final(self).frame_header_list.tidy(),
        final(self).frame_header_list.cur() == old(self).frame_header_list.cur() + old(self).c(),
        final(self).frame_header_list.n() == final(self).frame_header_list.cur(),
        final(self).stream.stream.pos() <= old(self).stream.stream.pos() + interleaved_pcm@.len() * 18,
        old(self).stream.stream.pos() <= final(self).stream.stream.pos(), grew(final(self).stream.stream, old(self).stream.stream),
        exists|vals: Seq<Seq<i16>>| #[trigger] coded(interleaved_pcm@, vals, old(self).c(), interleaved_pcm@.len() as int / old(self).c(), old(self).inv_scale)
            && forall|xs: Seq<Seq<i16>>| #[trigger] old(self).enc_ok(xs) ==> final(self).enc_ok(app(xs, vals, old(self).c())),
//@ entry
    let ghost c = self.c();
    let ghost n = interleaved_pcm@.len() as int / c;
    let ghost list0 = self.channel_state_list@;
    let ghost st0 = self.stream;
    let ghost fh0 = self.frame_header_list;
    let ghost inv0 = self.inv_scale;
    let ghost mut vals = Seq::<Seq<i16>>::empty();
    proof { lemma_block_room(interleaved_pcm@.len() as int, c, n); }
//@ loop 0 label it
    invariant
        it.seq().len() == num_channels, num_channels == c, c >= 1, num_chunks == n, 1 <= n <= 65535, interleaved_pcm@.len() == n * c, n * c <= usize::MAX, inv_scale == inv0,
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i,
        st0.stream.pos() + (n * c) * 18 + 0x1_0000_0000 <= MAXBITS(), fh0.cur() + c <= 0xffff_ffff, fh0.cur() % c == 0, fh0.cur() >= 0,
        channel_list@.len() == c, block_info.wf(), fh0.tidy() ==> block_info.tidy(), stream.stream.wf(), stream.info == st0.info, grew(stream.stream, st0.stream), st0.stream.pos() <= stream.stream.pos(),
        block_info.cur() == fh0.cur() + it.index@,
        it.index@ > 0 ==> block_info.n() == block_info.cur() && block_info@[block_info.cur() - 1].size == n,
        stream.stream.pos() <= st0.stream.pos() + (n * it.index@) * 18,
        deinterleaved_channel@.len() == n, DITHER_AMPLITUDE == 0.001f32, seq.wf(),
        forall|k: int| 0 <= k < c ==> chan_safe(#[trigger] channel_list@[k]),
        vals.len() == it.index@,
        forall|j: int| 0 <= j < it.index@ ==> (#[trigger] vals[j]).len() == n,
        forall|j: int, t: int| 0 <= j < it.index@ && 0 <= t < n ==> qrel(inv0, #[trigger] interleaved_pcm@[t * c + j], #[trigger] vals[j][t]),
        forall|xs: Seq<Seq<i16>>| #[trigger] enc_parts(list0, st0, fh0, c, xs) ==> enc_parts(channel_list@, *stream, *block_info, c, app(xs, vals, it.index@ as int)),
//@ loop 0 begin
    let ghost k0 = it.index@ as int;
    let ghost list_k = channel_list@;
    let ghost st_k = *stream;
    let ghost fh_k = *block_info;
    proof { assert(channel_idx == k0); assert((n * k0) * 18 + n * 18 <= (n * c) * 18) by (nonlinear_arith) requires k0 + 1 <= c, n >= 0; }
//@ loop 0 before
    proof { assert forall|xs: Seq<Seq<i16>>| #[trigger] enc_parts(list0, st0, fh0, c, xs) implies app(xs, vals, 0) =~= xs by {} }
//@ loop 1 label jt
    invariant
        jt.seq().len() == num_chunks, num_channels == c, num_chunks == n, interleaved_pcm@.len() == n * c, n * c <= usize::MAX, 0 <= channel_idx < c, channel_idx == k0,
        forall|i: int| 0 <= i < jt.seq().len() ==> #[trigger] jt.seq()[i] == i,
        deinterleaved_channel@.len() == n,
        forall|t: int| 0 <= t < jt.index@ ==> #[trigger] deinterleaved_channel@[t] == interleaved_pcm@[t * c + k0],
//@ loop 1 begin
    let ghost t0 = jt.index@ as int;
    proof { assert(chunk_idx == t0); lemma_cell(jt.index@ as int, n, k0, c); }
//@ loop 1 after
    let ghost src = deinterleaved_channel@;
//@ loop 2 label zt
    invariant
        zt.seq().len() == n, inv_scale == inv0, DITHER_AMPLITUDE == 0.001f32, seq.wf(), deinterleaved_channel@.len() == n, src.len() == n,
        forall|i: int| 0 <= i < zt.seq().len() ==> #[trigger] zt.seq()[i] == i,
        forall|i: int| zt.index@ <= i < n ==> #[trigger] deinterleaved_channel@[i] == src[i],
        forall|i: int| 0 <= i < zt.index@ ==> dithered(src[i], #[trigger] deinterleaved_channel@[i], inv0),
//@ loop 2 begin
    let ghost z0 = zt.index@ as int;
//@ loop 2 end
    proof { assert(deinterleaved_channel@[z0] == dith(src[z0], noise, inv0)); }
//@ exit
    proof {
        lemma_mod_step(fh0.cur(), c);
        assert(coded(interleaved_pcm@, vals, c, n, inv0));
        assert forall|xs: Seq<Seq<i16>>| #[trigger] old(self).enc_ok(xs) implies self.enc_ok(app(xs, vals, c)) by { assert(enc_parts(list0, st0, fh0, c, xs)); }
    }
//@ loop 0 end
    proof {
        let ys = tq_all(deinterleaved_channel@);
        let h = block_info@[fh_k.cur()];
        assert(vals_ok(ys)) by { assert forall|i: int| 0 <= i < ys.len() implies -32767 <= #[trigger] ys[i] by { axiom_tq_range(deinterleaved_channel@[i]); } }
        let v2 = vals.push(ys);
        assert(chan_safe(channel_list@[k0])) by {
            let f = list_k[k0];
            let w = if f.sample_history.n() == 0 { Seq::<i16>::empty() } else { last3(f.sample_history) };
            assert(hist_at(f.sample_history, w, w.len() as int));
            assert((w + ys).len() > 0);
        }
        assert forall|t: int| 0 <= t < n implies qrel(inv0, #[trigger] interleaved_pcm@[t * c + k0], ys[t]) by { assert(dithered(src[t], deinterleaved_channel@[t], inv0)); }
        lemma_mod_plus(fh0.cur(), k0, c);
        assert forall|xs: Seq<Seq<i16>>| #[trigger] enc_parts(list0, st0, fh0, c, xs) implies enc_parts(channel_list@, *stream, *block_info, c, app(xs, v2, k0 + 1)) by {
            let a = app(xs, vals, k0);
            lemma_enc_step(list_k, channel_list@[k0], st_k, *stream, fh_k, *block_info, c, k0, a, ys);
            assert(list_k.update(k0, channel_list@[k0]) =~= channel_list@);
            assert(app(xs, v2, k0 + 1) =~= a.update(k0, a[k0] + ys));
        }
        vals = v2;
        assert((n * (k0 + 1)) * 18 == (n * k0) * 18 + n * 18) by (nonlinear_arith);
    }

//@ fn AdhocCodec::encode
//@ attr
#[verifier::spinoff_prover]
#[verifier::rlimit(30)]
//@ spec
    requires
        old(self).enc_safe(), old(self).room(interleaved_pcm@.len() as int / old(self).c()),
    ensures
        final(self).enc_safe(), final(self).same_setup(old(self)), old(self).frame_header_list.tidy() ==> final(self).frame_header_list.tidy(),
        interleaved_pcm@.len() >= old(self).c() || old(self).frame_header_list.n() == old(self).frame_header_list.cur() ==> final(self).frame_header_list.n() == final(self).frame_header_list.cur(),
        old(self).frame_header_list.cur() <= final(self).frame_header_list.cur() <= old(self).frame_header_list.cur() + (interleaved_pcm@.len() as int / old(self).c() / 65535 + 1) * old(self).c(),
        final(self).stream.stream.pos() <= old(self).stream.stream.pos() + interleaved_pcm@.len() * 18,
        grew(final(self).stream.stream, old(self).stream.stream),
        exists|vals: Seq<Seq<i16>>| #[trigger] coded(interleaved_pcm@, vals, old(self).c(), interleaved_pcm@.len() as int / old(self).c(), old(self).inv_scale)
            && forall|xs: Seq<Seq<i16>>| #[trigger] old(self).enc_ok(xs) ==> final(self).enc_ok(app(xs, vals, old(self).c())),
//@ entry
    broadcast use lemma_mod_def;
    let ghost c = self.c();
    let ghost n = interleaved_pcm@.len() as int / c;
    let ghost pcm0 = interleaved_pcm@;
    let ghost mut vals = Seq::new(c as nat, |j: int| Seq::<i16>::empty());
    let ghost mut m: int = 0;
    let ghost mut b: int = 0;
    proof { lemma_whole_sets(pcm0.len() as int, c); assert forall|xs: Seq<Seq<i16>>| #[trigger] self.enc_ok(xs) implies app(xs, vals, c) =~= xs by {} }
//@ loop 0
    invariant
        num_channels == c, c >= 1, pcm0 == interleaved_pcm@, n == pcm0.len() as int / c, 0 <= n * c <= pcm0.len(), max_block_len == 65535 * c,
        self.enc_safe(), self.same_setup(old(self)), old(self).frame_header_list.tidy() ==> self.frame_header_list.tidy(), old(self).c() == c, old(self).room(n),
        0 <= m <= n, 0 <= b, m == b * 65535 || m == n, b == 0 || (b - 1) * 65535 < n,
        remaining@ =~= pcm0.subrange(m * c, n * c), 0 <= m * c <= n * c,
        self.frame_header_list.cur() == old(self).frame_header_list.cur() + b * c, 
        m > 0 || old(self).frame_header_list.n() == old(self).frame_header_list.cur() ==> self.frame_header_list.n() == self.frame_header_list.cur(),
        self.stream.stream.pos() <= old(self).stream.stream.pos() + (m * c) * 18, old(self).stream.stream.pos() <= self.stream.stream.pos(), grew(self.stream.stream, old(self).stream.stream),
        coded(pcm0, vals, c, m, old(self).inv_scale),
        forall|xs: Seq<Seq<i16>>| #[trigger] old(self).enc_ok(xs) ==> self.enc_ok(app(xs, vals, c)),
    decreases n - m
//@ loop 0 begin
    let ghost s0 = *self;
//@ before self.encode_block(block)
    let ghost k = if n - m < 65535 { n - m } else { 65535int };
    proof {
        assert(remaining@.len() == n * c - m * c);
        lemma_split_sets(n, m, k, c);
        assert(m < n) by (nonlinear_arith) requires m * c < n * c, c >= 1;
        assert(k * c == (if n * c - m * c < 65535 * c { n * c - m * c } else { 65535 * c })) by (nonlinear_arith) requires c >= 1, k == (if n - m < 65535 { n - m } else { 65535int });
        assert(block@.len() == k * c);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, c);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, c);
        assert(c * k == k * c) by (nonlinear_arith);
        assert(block@ =~= pcm0.subrange(m * c, (m + k) * c));
        assert(b * c + c <= (n / 65535 + 1) * c) by (nonlinear_arith) requires c >= 1, b <= n / 65535;
    }
//@ after self.encode_block(block)
    proof {
        let v = choose|v: Seq<Seq<i16>>| #[trigger] coded(block@, v, c, k, old(self).inv_scale) && forall|xs: Seq<Seq<i16>>| #[trigger] s0.enc_ok(xs) ==> self.enc_ok(app(xs, v, c));
        let v2 = app(vals, v, c);
        lemma_coded_app(pcm0, block@, vals, v, c, m, k, n, old(self).inv_scale);
        assert forall|xs: Seq<Seq<i16>>| #[trigger] old(self).enc_ok(xs) implies self.enc_ok(app(xs, v2, c)) by {
            assert(s0.enc_ok(app(xs, vals, c)));
            assert(xs.len() == c);
            lemma_app_app(xs, vals, v, c);
        }
        vals = v2;
        assert((b + 1) * c == b * c + c) by (nonlinear_arith);
        assert((m + k) * c == m * c + k * c) by (nonlinear_arith);
        m = m + k;
        b = b + 1;
    }
//@ exit
    proof {
        assert(0 <= b * c <= (n / 65535 + 1) * c) by (nonlinear_arith) requires c >= 1, 0 <= b <= n / 65535 + 1;
        assert(m == n) by (nonlinear_arith) requires m * c == n * c, c >= 1;
        if pcm0.len() >= c { vstd::arithmetic::div_mod::lemma_div_non_zero(pcm0.len() as int, c); }
    }

//@ global
pub open spec fn chan_fresh(f: FrameCodec) -> bool { f.state is Init && f.sample_history.wf() && f.sample_history.n() == 0 && f.buffered_channel@.len() == 0 }
pub assume_specification [<u32 as Ord>::clamp](x: u32, lo: u32, hi: u32) -> (r: u32)
    ensures lo <= hi ==> r == (if x < lo { lo } else if x > hi { hi } else { x });
pub proof fn lemma_scales(l: u32) requires l <= 10
    ensures (1u32 << l) as i32 == 1i32 << l, (1u64 << l) as i32 == 1i32 << l, (1usize << l) as i32 == 1i32 << l, (1u16 << l) as i32 == 1i32 << l, 1u32 << l <= 1024, 1u64 << l <= 1024, 1usize << l <= 1024, 1u16 << l <= 1024
{
    assert(l <= 10 ==> (1u32 << l) as i32 == 1i32 << l && 1u32 << l <= 1024) by (bit_vector);
    assert(l <= 10 ==> (1u64 << l) as i32 == 1i32 << l && 1u64 << l <= 1024) by (bit_vector);
    assert(l <= 10 ==> (1usize << l) as i32 == 1i32 << l && 1usize << l <= 1024) by (bit_vector);
    assert(l <= 10 ==> (1u16 << l) as i32 == 1i32 << l && 1u16 << l <= 1024) by (bit_vector);
}
/// the factor of a compression level
pub open spec fn scale_of(level: u32) -> f32 { f32_of::<i32>(1i32 << level) }
impl AdhocCodec {
    /// the quantisation factors are those of the level
    pub open spec fn lvl_ok(&self) -> bool {
        self.compression_level <= 10 && self.scale == scale_of(self.compression_level) && self.inv_scale == fdiv(1.0f32, self.scale)
    }
}
//@ fn AdhocCodec::with_compression_level
//@ ret r
//@ opt floats
//@ spec
    ensures r.lvl_ok(), r.compression_level == (if level > 10 { 10 } else { level }),
        r.stream == self.stream, r.frame_header_list == self.frame_header_list, r.channel_state_list == self.channel_state_list, r.seq == self.seq,
//@ entry
    broadcast use vx_float::int_float;
    proof { let l = if level > 10 { 10u32 } else { level }; lemma_scales(l); }
//@ fn AdhocCodec::with_info
//@ ret r
//@ spec
    ensures r.stream.info == Some(info), r.stream.stream == self.stream.stream, r.frame_header_list == self.frame_header_list, r.seq == self.seq,
        r.compression_level == self.compression_level, r.scale == self.scale, r.inv_scale == self.inv_scale,
        r.channel_state_list@.len() == info.channels,
        forall|k: int| 0 <= k < info.channels ==> (k < self.channel_state_list@.len() && #[trigger] r.channel_state_list@[k] == self.channel_state_list@[k]) || (k >= self.channel_state_list@.len() && chan_fresh(r.channel_state_list@[k])),
//@ fn AdhocCodec::set_info
//@ spec
    ensures final(self).stream.info == Some(info), final(self).stream.stream == old(self).stream.stream, final(self).frame_header_list == old(self).frame_header_list, final(self).seq == old(self).seq,
        final(self).compression_level == old(self).compression_level, final(self).scale == old(self).scale, final(self).inv_scale == old(self).inv_scale,
        final(self).channel_state_list@.len() == info.channels,
        forall|k: int| 0 <= k < info.channels ==> (k < old(self).channel_state_list@.len() && #[trigger] final(self).channel_state_list@[k] == old(self).channel_state_list@[k]) || (k >= old(self).channel_state_list@.len() && chan_fresh(final(self).channel_state_list@[k])),
//@ fn AdhocCodec::init
//@ spec
    ensures final(self).frame_header_list.is_init_frame_list == old(self).frame_header_list.is_init_frame_list, final(self).same_setup(old(self)), final(self).seq == old(self).seq,
        final(self).stream.stream.pos() == 0, final(self).stream.stream.binary == old(self).stream.stream.binary, final(self).stream.stream.capacity == old(self).stream.stream.capacity, old(self).stream.stream.nbits() <= MAXBITS() + 512 ==> final(self).stream.stream.wf(),
        final(self).frame_header_list.cur() == 0, final(self).frame_header_list.n() == old(self).frame_header_list.n(), final(self).hs() =~= old(self).hs(),
        old(self).frame_header_list.readable() ==> final(self).frame_header_list.readable(), old(self).frame_header_list.wf() ==> final(self).frame_header_list.wf(),
        final(self).channel_state_list@.len() == old(self).channel_state_list@.len(),
        forall|k: int| 0 <= k < final(self).channel_state_list@.len() ==> chan_fresh(#[trigger] final(self).channel_state_list@[k]),
//@ loop 0 label it
    invariant
        it.seq().len() == old(self).channel_state_list@.len(),
        forall|i: int| 0 <= i < it.index@ ==> chan_fresh(*final(#[trigger] it.seq()[i])),

//@ global
/* ---- reading ---- */
/// within a block all channels advance together
pub proof fn lemma_tt_same(hs: Seq<FrameHeader>, s: Bits, xs: Seq<Seq<i16>>, c: int, i: int, k: int)
    requires c >= 1, 0 <= i <= hs.len(), i % c == 0, hs.len() as int % c == 0, 0 <= k < c, forall|j: int| 0 <= j < hs.len() ==> #[trigger] hdr_ok(hs, s, xs, c, j)
    ensures tt(hs, c, i + k) == tt(hs, c, i), i < hs.len() ==> i + k < hs.len() && hs[i + k].size == hs[i].size && i + c <= hs.len()
    decreases i, 1int
{
    if i >= c { lemma_mod_step(i - c, c); lemma_tt_same(hs, s, xs, c, i - c, k); }
    else { lemma_mod_step(i, c); }
    if i < hs.len() { lemma_mod_gap(i, hs.len() as int, c); lemma_size_same(hs, s, xs, c, i, k); }
}
pub proof fn lemma_mod_gap(i: int, n: int, c: int)
    requires c >= 1, 0 <= i < n, i % c == 0, n % c == 0
    ensures i + c <= n
{ if n < i + c { lemma_mod_window(i, n, c); } }
pub proof fn lemma_size_same(hs: Seq<FrameHeader>, s: Bits, xs: Seq<Seq<i16>>, c: int, i: int, k: int)
    requires c >= 1, 0 <= i, i % c == 0, i + c <= hs.len(), 0 <= k < c, forall|j: int| 0 <= j < hs.len() ==> #[trigger] hdr_ok(hs, s, xs, c, j)
    ensures hs[i + k].size == hs[i].size
    decreases k
{
    if k > 0 {
        lemma_size_same(hs, s, xs, c, i, k - 1);
        lemma_mod_plus(i, k, c);
        assert(hdr_ok(hs, s, xs, c, i + k));
    }
}
/// the stream and its headers are the whole recording of xs
pub open spec fn dec_full(fh: FrameHeaders, st: AudioStream, xs: Seq<Seq<i16>>, c: int) -> bool {
    &&& rec_ok(fh@, st.stream.bits(), xs, c)
    &&& fh.n() % c == 0
    &&& fpos(fh@, xs, c, fh.n()) <= st.stream.nbits()
}
/// samples m .. t of channel x wait in the buffer; a live channel continues behind them
pub open spec fn chan_dec(f: FrameCodec, x: Seq<i16>, m: int, t: int, live: bool) -> bool {
    &&& f.buffered_channel@ =~= nzs(x, m, t - m)
    &&& live ==> hist_at(f.sample_history, x, t) && (f.state is Init) == (t == 0)
}
/// m samples of every channel have been handed out, and the cursors stand between two blocks
pub open spec fn dec_parts(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>, m: int) -> bool {
    let t = tt(fh@, c, fh.cur());
    &&& dec_full(fh, st, xs, c)
    &&& 0 <= fh.cur() <= fh.n() && fh.cur() % c == 0 && 0 <= m <= t
    &&& fh.cur() < fh.n() ==> st.stream.pos() == fpos(fh@, xs, c, fh.cur())
    &&& forall|j: int| 0 <= j < c ==> chan_dec(list[j], #[trigger] xs[j], m, t, fh.cur() < fh.n())
}
/// as dec_parts, with the frames of the first k channels of the block at header b read
pub open spec fn dec_mid(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>, m: int, b: int, k: int) -> bool {
    let t = tt(fh@, c, b);
    &&& dec_full(fh, st, xs, c)
    &&& 0 <= b < fh.n() && b % c == 0 && 0 <= m <= t && 0 <= k <= c && fh.cur() == b + k
    &&& st.stream.pos() == fpos(fh@, xs, c, b + k)
    &&& forall|j: int| 0 <= j < c ==> chan_dec(list[j], #[trigger] xs[j], m, if j < k { t + fh@[b].size as int } else { t }, true)
}
/// what a channel needs to be read from at all, whatever is in the stream
pub open spec fn chan_rd(f: FrameCodec) -> bool { f.sample_history.wf() && !(f.state is Encoding) }
impl AdhocCodec {
    pub open spec fn dec_safe(&self) -> bool {
        &&& self.ready() && self.frame_header_list.readable() && self.frame_header_list.n() <= 0xffff_ffff
        &&& stream_ok(self.stream.stream, self.frame_header_list.cur())
        &&& forall|k: int| 0 <= k < self.c() ==> chan_rd(#[trigger] self.channel_state_list@[k])
    }
    pub open spec fn dec_ok(&self, xs: Seq<Seq<i16>>, m: int) -> bool {
        self.dec_safe() && dec_parts(self.channel_state_list@, self.stream, self.frame_header_list, self.c(), xs, m)
    }
}
pub proof fn lemma_dec_n(fh: FrameHeaders, st: AudioStream, xs: Seq<Seq<i16>>, c: int, b: int)
    requires dec_full(fh, st, xs, c), 0 <= b <= fh.n(), b % c == 0
    ensures forall|j: int| 0 <= j < c ==> (#[trigger] xs[j]).len() == tt(fh@, c, fh.n()),
        0 <= tt(fh@, c, b) <= tt(fh@, c, fh.n()), (tt(fh@, c, b) == 0) == (b == 0),
        b < fh.n() ==> b + c <= fh.n() && fh@[b].size >= 1 && (b + c) % c == 0 && tt(fh@, c, b + c) == tt(fh@, c, b) + fh@[b].size,
    decreases fh.n() - b
{
    let hs = fh@; let n = fh.n();
    assert forall|j: int| 0 <= j < c implies (#[trigger] xs[j]).len() == tt(hs, c, n) by {
        lemma_tt_same(hs, st.stream.bits(), xs, c, n, j);
        lemma_mod_plus(n, j, c);
        assert(xs[(n + j) % c].len() == tt(hs, c, n + j));
    }
    assert forall|j: int| 0 <= j < hs.len() implies (#[trigger] hs[j]).size >= 1 by { assert(hdr_ok(hs, st.stream.bits(), xs, c, j)); }
    lemma_tt_pos(hs, c, b);
    if b < c { lemma_mod_step(b, c); }
    if b < n { lemma_mod_gap(b, n, c); lemma_mod_step(b, c); lemma_dec_n(fh, st, xs, c, b + c); }
}
/// the next frame to read, for a channel with this history
pub proof fn lemma_blk_ready(h: CircularStack<i16>, init: bool, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>, b: int, k: int)
    requires dec_full(fh, st, xs, c), 0 <= b < fh.n(), b % c == 0, 0 <= k < c, c >= 1, st.stream.pos() == fpos(fh@, xs, c, b + k),
        hist_at(h, xs[k], tt(fh@, c, b)), init == (tt(fh@, c, b) == 0),
    ensures b + k < fh.n(), ready(h, st.stream.bits(), st.stream.pos(), st.stream.nbits(), fh.hdr(b + k), init, xs[k], tt(fh@, c, b)),
        flen(fh@, xs, c, b + k) == off(init, fh.hdr(b + k).exponent as int, xs[k], tt(fh@, c, b), fh.hdr(b + k).size as int),
        fpos(fh@, xs, c, b + k + 1) == fpos(fh@, xs, c, b + k) + flen(fh@, xs, c, b + k),
        fh@[b + k] == fh.hdr(b + k), fh@[b + k].size == fh@[b].size,
{
    let hs = fh@; let s = st.stream.bits();
    lemma_dec_n(fh, st, xs, c, b);
    lemma_tt_same(hs, s, xs, c, b, k);
    lemma_mod_plus(b, k, c);
    assert(hdr_ok(hs, s, xs, c, b + k));
    lemma_fpos_mono(hs, s, xs, c, b + k, fh.n());
    if b > 0 { lemma_mod_gap(0, b, c); }
    assert(vals_ok(xs[k]));
}
pub proof fn lemma_dec_ready(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>, m: int, b: int, k: int)
    requires dec_mid(list, st, fh, c, xs, m, b, k), k < c, c >= 1
    ensures b + k < fh.n(), ready(list[k].sample_history, st.stream.bits(), st.stream.pos(), st.stream.nbits(), fh.hdr(b + k), list[k].state is Init, xs[k], tt(fh@, c, b)),
        flen(fh@, xs, c, b + k) == off(list[k].state is Init, fh.hdr(b + k).exponent as int, xs[k], tt(fh@, c, b), fh.hdr(b + k).size as int),
        fh@[b + k] == fh.hdr(b + k), fh@[b + k].size == fh@[b].size,
{
    assert(chan_dec(list[k], xs[k], m, tt(fh@, c, b), true));
    lemma_blk_ready(list[k].sample_history, list[k].state is Init, st, fh, c, xs, b, k);
}
#[verifier::spinoff_prover]
pub proof fn lemma_dec_step(list: Seq<FrameCodec>, list2: Seq<FrameCodec>, f2: FrameCodec, st: AudioStream, st2: AudioStream, fh: FrameHeaders, fh2: FrameHeaders, c: int, xs: Seq<Seq<i16>>, m: int, b: int, k: int)
    requires
        dec_mid(list, st, fh, c, xs, m, b, k), k < c, c >= 1, list.len() == c, list2 =~= list.update(k, f2),
        fh2@ =~= fh@, fh2.n() == fh.n(), fh2.cur() == b + k + 1,
        st2.stream.bits() =~= st.stream.bits(), st2.stream.nbits() >= st.stream.nbits(),
        f2.state is Decoding,
        ({ let x = xs[k]; let t = tt(fh@, c, b); let hd = fh.hdr(b + k);
            &&& hist_at(f2.sample_history, x, t + hd.size)
            &&& f2.buffered_channel@ =~= list[k].buffered_channel@ + nzs(x, t, hd.size as int)
            &&& st2.stream.pos() == st.stream.pos() + off(list[k].state is Init, hd.exponent as int, x, t, hd.size as int) }),
    ensures dec_mid(list2, st2, fh2, c, xs, m, b, k + 1)
{
    lemma_dec_ready(list, st, fh, c, xs, m, b, k);
    lemma_dec_n(fh, st, xs, c, b);
    assert(fh2@ == fh@);
    let t = tt(fh@, c, b); let sz = fh@[b].size as int;
    assert(fpos(fh@, xs, c, b + k + 1) == fpos(fh@, xs, c, b + k) + flen(fh@, xs, c, b + k));
    assert forall|j: int| 0 <= j < c implies chan_dec(list2[j], #[trigger] xs[j], m, if j < k + 1 { t + sz } else { t }, true) by {
        assert(chan_dec(list[j], xs[j], m, if j < k { t + sz } else { t }, true));
        if j == k { assert(nzs(xs[k], m, t - m) + nzs(xs[k], t, sz) =~= nzs(xs[k], m, t + sz - m)); }
    }
}
pub proof fn lemma_dec_done(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>, m: int, b: int)
    requires dec_mid(list, st, fh, c, xs, m, b, c), c >= 1, list.len() == c
    ensures dec_parts(list, st, fh, c, xs, m), tt(fh@, c, fh.cur()) == tt(fh@, c, b) + fh@[b].size, fh@[b].size >= 1
{
    lemma_dec_n(fh, st, xs, c, b);
    let t = tt(fh@, c, b) + fh@[b].size as int;
    assert forall|j: int| 0 <= j < c implies chan_dec(list[j], #[trigger] xs[j], m, t, fh.cur() < fh.n()) by { assert(chan_dec(list[j], xs[j], m, t, true)); }
}
pub proof fn lemma_dec_begin(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>, m: int)
    requires dec_parts(list, st, fh, c, xs, m), c >= 1, fh.cur() < fh.n()
    ensures dec_mid(list, st, fh, c, xs, m, fh.cur(), 0)
{
    let t = tt(fh@, c, fh.cur());
    assert forall|j: int| 0 <= j < c implies chan_dec(list[j], #[trigger] xs[j], m, t, true) by { assert(chan_dec(list[j], xs[j], m, t, fh.cur() < fh.n())); }
}
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (q: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (q@.len() == 0);
//@ global
impl AdhocCodec {
    /// what positioning needs of any stream, damaged or not
    pub open spec fn seekable(&self) -> bool {
        &&& self.stream.info is Some && self.c() >= 1 && self.seq.wf() && self.channel_state_list@.len() == self.c()
        &&& self.frame_header_list.readable() && self.frame_header_list.n() <= 0xffff_ffff && self.frame_header_list.n() % self.c() == 0
        &&& self.stream.stream.wf() && silent(self.stream.stream.bits()) && self.stream.stream.nbits() <= SILENT() + 0x40_0000_0000_0000
        &&& forall|i: int| 0 <= i < self.frame_header_list@.len() ==> (#[trigger] self.frame_header_list@[i]).bit_cursor <= SILENT() && self.frame_header_list@[i].bit_cursor <= self.stream.stream.nbits()
    }
    /// the stream is the whole recording of xs
    pub open spec fn full(&self, xs: Seq<Seq<i16>>) -> bool { self.seekable() && dec_full(self.frame_header_list, self.stream, xs, self.c()) }
}
//@ fn AdhocCodec::decode
//@ opt floats scale s
//@ opt inline_closure buffer_audio is_buffers_empty
//@ ret r
//@ attr
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
//@ spec
    requires
        old(self).dec_safe(),
    ensures
        final(self).dec_safe(), old(self).seekable() ==> final(self).seekable(), final(self).frame_header_list.is_init_frame_list == old(self).frame_header_list.is_init_frame_list, final(self).same_setup(old(self)), final(self).seq == old(self).seq,
        final(self).hs() =~= old(self).hs(), final(self).stream.stream.bits() =~= old(self).stream.stream.bits(),
        final(pcm_out)@.len() == old(pcm_out)@.len(), r <= old(pcm_out)@.len(), r as int % old(self).c() == 0,
        forall|i: int| r <= i < old(pcm_out)@.len() ==> final(pcm_out)@[i] == old(pcm_out)@[i],
        forall|xs: Seq<Seq<i16>>, m: int| #[trigger] old(self).dec_ok(xs, m) ==> {
            let c = old(self).c(); let l = old(pcm_out)@.len() as int / c; let k = if l < xs[0].len() - m { l } else { xs[0].len() - m };
            &&& r == k * c
            &&& final(self).dec_ok(xs, m + k)
            &&& forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] final(pcm_out)@[t * c + j] == fmul(nz(#[trigger] xs[j][m + t]), old(self).scale)
        },
//@ entry
    broadcast use lemma_mod_def;
    let ghost c = self.c();
    let ghost list0 = self.channel_state_list@;
    let ghost st0 = self.stream;
    let ghost fh0 = self.frame_header_list;
    let ghost out0 = pcm_out@;
    let ghost n = fh0.n();
    let ghost l = pcm_out@.len() as int / c;
    let ghost mut q: int = 0;
    proof { lemma_whole_sets(pcm_out@.len() as int, c); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(l, c);
        if q < l { assert(q * c < l * c) by (nonlinear_arith) requires q < l, c >= 1; } }
//@ loop 0
    invariant
        c >= 1, num_channels == c, legal_output_len == l * c, l * c <= out0.len() <= usize::MAX, 0 <= q <= l, pcm_out_cursor == q * c, 0 <= q * c <= l * c, q < l ==> q * c < l * c, pcm_out@.len() == out0.len(),
        fh0.readable(), n == fh0.n(), n <= 0xffff_ffff,
        channel_list@.len() == c, list0.len() == c, forall|k: int| 0 <= k < c ==> chan_rd(#[trigger] channel_list@[k]),
        block_info.readable(), block_info.n() == n, block_info@ =~= fh0@, block_info.is_init_frame_list == fh0.is_init_frame_list,
        stream_ok(stream.stream, block_info.cur()), stream.info == st0.info, stream.stream.nbits() >= st0.stream.nbits(), stream.stream.bits() =~= st0.stream.bits(),
        forall|i: int| q * c <= i < out0.len() ==> pcm_out@[i] == out0[i],
        forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) ==> dec_parts(channel_list@, *stream, *block_info, c, xs, m + q),
        forall|xs: Seq<Seq<i16>>, m: int, t: int, j: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) && 0 <= t < q && 0 <= j < c ==> #[trigger] pcm_out@[t * c + j] == nz(#[trigger] xs[j][m + t]),
    ensures
        q < l ==> forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) ==> m + q == xs[0].len(),
    decreases l - q
//@ loop 1
    invariant
        attempts <= 10,
        c >= 1, num_channels == c,
        fh0.readable(), n == fh0.n(), n <= 0xffff_ffff,
        channel_list@.len() == c, list0.len() == c, forall|k: int| 0 <= k < c ==> chan_rd(#[trigger] channel_list@[k]),
        block_info.readable(), block_info.n() == n, block_info@ =~= fh0@, block_info.is_init_frame_list == fh0.is_init_frame_list,
        stream_ok(stream.stream, block_info.cur()), stream.info == st0.info, stream.stream.nbits() >= st0.stream.nbits(), stream.stream.bits() =~= st0.stream.bits(),
        forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) ==> dec_parts(channel_list@, *stream, *block_info, c, xs, m + q)
            && (attempts >= 1 ==> block_info.cur() == n || m + q < tt(fh0@, c, block_info.cur()))
            && (attempts >= 2 ==> block_info.cur() == n && m + q == tt(fh0@, c, block_info.cur()) && m + q == xs[0].len()),
    ensures
        attempts < 10 ==> forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) ==> m + q < tt(fh0@, c, block_info.cur()),
    decreases 10 - attempts
//@ loop 2 label at
    invariant_except_break
        __vx_all1, forall|k: int| 0 <= k < at.index@ ==> (#[trigger] channel_list@[k]).buffered_channel@.len() == 0,
    invariant
        at.seq().len() == channel_list@.len(),
        forall|i: int| 0 <= i < at.seq().len() ==> *(#[trigger] at.seq()[i]) == channel_list@[i],
    ensures
        __vx_all1 == (forall|k: int| 0 <= k < channel_list@.len() ==> (#[trigger] channel_list@[k]).buffered_channel@.len() == 0),
//@ loop 2 after
    proof {
        assert forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) implies (__vx_all1 == (m + q == tt(fh0@, c, block_info.cur()))) && m + q <= tt(fh0@, c, block_info.cur())
            && (block_info.cur() == n ==> tt(fh0@, c, block_info.cur()) == xs[0].len()) by {
            assert(dec_parts(channel_list@, *stream, *block_info, c, xs, m + q));
            assert(block_info@ == fh0@);
            lemma_dec_n(*block_info, *stream, xs, c, block_info.cur());
            let t = tt(block_info@, c, block_info.cur());
            assert(chan_dec(channel_list@[0], xs[0], m + q, t, block_info.cur() < block_info.n()));
            if !__vx_all1 {
                let j = choose|j: int| 0 <= j < c && (#[trigger] channel_list@[j]).buffered_channel@.len() != 0;
                assert(chan_dec(channel_list@[j], xs[j], m + q, t, block_info.cur() < block_info.n()));
            }
        }
    }
//@ loop 3 label bt
    invariant
        bt.seq().len() == num_channels, forall|i: int| 0 <= i < bt.seq().len() ==> #[trigger] bt.seq()[i] == i,
        c >= 1, num_channels == c,
        fh0.readable(), n == fh0.n(), n <= 0xffff_ffff, 0 <= b <= n || b == block_info.cur(),
        channel_list@.len() == c, list0.len() == c, list_a.len() == c, forall|k: int| 0 <= k < c ==> chan_rd(#[trigger] channel_list@[k]),
        block_info.readable(), block_info.n() == n, block_info@ =~= fh0@, block_info.is_init_frame_list == fh0.is_init_frame_list,
        stream_ok(stream.stream, block_info.cur()), stream.info == st0.info, stream.stream.nbits() >= st0.stream.nbits(), stream.stream.bits() =~= st0.stream.bits(),
        b >= n ==> block_info.cur() == b,
        forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) ==>
            if b < n { dec_mid(channel_list@, *stream, *block_info, c, xs, m + q, b, bt.index@ as int) && m + q == tt(fh0@, c, b) }
            else { dec_parts(channel_list@, *stream, *block_info, c, xs, m + q) && m + q == tt(fh0@, c, b) },
//@ loop 3 before
    let ghost b = block_info.cur();
    let ghost list_a = channel_list@;
    proof {
        assert forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) implies m + q == tt(fh0@, c, b) && (b < n ==> dec_mid(channel_list@, *stream, *block_info, c, xs, m + q, b, 0)) by {
            assert(dec_parts(channel_list@, *stream, *block_info, c, xs, m + q));
            assert(chan_dec(channel_list@[0], xs[0], m + q, tt(block_info@, c, b), block_info.cur() < block_info.n()));
            assert(block_info@ == fh0@);
            if b < n { lemma_dec_begin(channel_list@, *stream, *block_info, c, xs, m + q); }
        }
    }
//@ loop 3 begin
    let ghost k0 = bt.index@ as int;
    let ghost list_k = channel_list@;
    let ghost st_k = *stream;
    let ghost fh_k = *block_info;
    proof {
        assert(channel_idx == k0);
        assert(chan_rd(channel_list@[k0]));
    }
//@ loop 3 end
    proof {
        assert forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) implies
            (if b < n { dec_mid(channel_list@, *stream, *block_info, c, xs, m + q, b, k0 + 1) } else { dec_parts(channel_list@, *stream, *block_info, c, xs, m + q) }) by {
            if b < n {
                lemma_dec_ready(list_k, st_k, fh_k, c, xs, m + q, b, k0);
                lemma_dec_step(list_k, channel_list@, channel_list@[k0], st_k, *stream, fh_k, *block_info, c, xs, m + q, b, k0);
            } else {
                assert(channel_list@ =~= list_k);
            }
        }
    }
//@ loop 3 after
    proof {
        assert forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) implies
            dec_parts(channel_list@, *stream, *block_info, c, xs, m + q) && (block_info.cur() == n || m + q < tt(fh0@, c, block_info.cur())) && (b >= n ==> m + q == tt(fh0@, c, block_info.cur())) by {
            assert(block_info@ == fh0@);
            if b < n { lemma_dec_done(channel_list@, *stream, *block_info, c, xs, m + q, b); }
        }
    }
//@ loop 4
    invariant
        c >= 1, num_channels == c, legal_output_len == l * c, l * c <= out0.len(), 0 <= q < l, 0 <= channel_idx <= c, pcm_out_cursor == q * c + channel_idx, (q + 1) * c <= l * c, q * c + c == (q + 1) * c, 0 <= q * c, pcm_out@.len() == out0.len(),
        channel_list@.len() == c, list_b.len() == c, forall|k: int| 0 <= k < c ==> chan_rd(#[trigger] channel_list@[k]),
        forall|k: int| 0 <= k < c ==> (#[trigger] channel_list@[k]).state == list_b[k].state && channel_list@[k].sample_history == list_b[k].sample_history,
        forall|k: int| channel_idx <= k < c ==> #[trigger] channel_list@[k] == list_b[k],
        forall|k: int| 0 <= k < channel_idx && list_b[k].buffered_channel@.len() > 0 ==> (#[trigger] channel_list@[k]).buffered_channel@ =~= list_b[k].buffered_channel@.skip(1),
        forall|k: int| 0 <= k < channel_idx && list_b[k].buffered_channel@.len() > 0 ==> #[trigger] pcm_out@[q * c + k] == list_b[k].buffered_channel@[0],
        forall|i: int| 0 <= i < q * c ==> pcm_out@[i] == out_b[i],
        forall|i: int| q * c + channel_idx <= i < out0.len() ==> pcm_out@[i] == out_b[i],
    decreases c - channel_idx
//@ loop 4 before
    let ghost list_b = channel_list@;
    let ghost out_b = pcm_out@;
    proof {
        assert(q < l) by (nonlinear_arith) requires q * c < l * c, c >= 1;
        assert((q + 1) * c <= l * c) by (nonlinear_arith) requires q + 1 <= l, c >= 1;
        assert(q * c + c == (q + 1) * c && 0 <= q * c) by (nonlinear_arith) requires c >= 1, q >= 0;
    }
//@ loop 4 begin
    proof { assert(chan_rd(channel_list@[channel_idx as int])); }
//@ loop 4 after
    proof {
        assert(channel_idx == c);
        assert forall|xs: Seq<Seq<i16>>, m: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) implies dec_parts(channel_list@, *stream, *block_info, c, xs, m + q + 1) by {
            assert(dec_parts(list_b, *stream, *block_info, c, xs, m + q));
            let t = tt(block_info@, c, block_info.cur());
            assert forall|j: int| 0 <= j < c implies chan_dec(channel_list@[j], #[trigger] xs[j], m + q + 1, t, block_info.cur() < block_info.n()) by {
                assert(chan_dec(list_b[j], xs[j], m + q, t, block_info.cur() < block_info.n()));
            }
        }
        assert forall|xs: Seq<Seq<i16>>, m: int, t: int, j: int| #[trigger] dec_parts(list0, st0, fh0, c, xs, m) && 0 <= t < q + 1 && 0 <= j < c implies #[trigger] pcm_out@[t * c + j] == nz(#[trigger] xs[j][m + t]) by {
            assert(dec_parts(list_b, *stream, *block_info, c, xs, m + q));
            let tn = tt(block_info@, c, block_info.cur());
            assert(chan_dec(list_b[j], xs[j], m + q, tn, block_info.cur() < block_info.n()));
            if t < q { lemma_cell(t, q, j, c); assert(out_b[t * c + j] == nz(xs[j][m + t])); }
            else { assert(pcm_out@[q * c + j] == list_b[j].buffered_channel@[0]); }
        }
        q = q + 1;
        if q < l { assert(q * c < l * c) by (nonlinear_arith) requires q < l, c >= 1; }
    }
//@ loop 5 label st
    invariant
        st.seq().len() == pcm_out_cursor, forall|i: int| 0 <= i < st.seq().len() ==> #[trigger] st.seq()[i] == i,
        pcm_out@.len() == out_c.len(), pcm_out_cursor <= out_c.len(), self.scale == old(self).scale,
        forall|i: int| 0 <= i < st.index@ ==> #[trigger] pcm_out@[i] == fmul(out_c[i], old(self).scale),
        forall|i: int| st.index@ <= i < out_c.len() ==> #[trigger] pcm_out@[i] == out_c[i],
//@ loop 5 before
    let ghost out_c = pcm_out@;
//@ exit
    proof {
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, c);
        assert forall|xs: Seq<Seq<i16>>, m: int| #[trigger] old(self).dec_ok(xs, m) implies ({
            let k = if l < xs[0].len() - m { l } else { xs[0].len() - m };
            &&& q == k
            &&& self.dec_ok(xs, m + k)
            &&& forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] pcm_out@[t * c + j] == fmul(nz(#[trigger] xs[j][m + t]), old(self).scale)
        }) by {
            assert(dec_parts(list0, st0, fh0, c, xs, m));
            assert(dec_parts(self.channel_state_list@, self.stream, self.frame_header_list, c, xs, m + q));
            lemma_dec_n(self.frame_header_list, self.stream, xs, c, self.frame_header_list.cur());
            assert forall|t: int, j: int| 0 <= t < q && 0 <= j < c implies #[trigger] pcm_out@[t * c + j] == fmul(nz(#[trigger] xs[j][m + t]), old(self).scale) by {
                lemma_cell(t, q, j, c);
                assert(out_c[t * c + j] == nz(xs[j][m + t]));
            }
        }
    }
//@ global
pub open spec fn from_start(dt: SeekFrom) -> u64 { match dt { SeekFrom::Start(ms) => ms, _ => 0 } }
/// the set of samples a time in milliseconds stands for
pub open spec fn set_at(rate: u32, ms: u64) -> u64 { u64_of(fmul(fdiv(f32_of(rate), 1000.0f32), f32_of(ms))) }
/// the frames of the first k channels of the block at header b have been read after a jump to it
pub open spec fn seek_mid(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>, b: int, k: int) -> bool {
    let t = tt(fh@, c, b);
    &&& dec_full(fh, st, xs, c)
    &&& 0 <= b < fh.n() && b % c == 0 && 0 <= k <= c && fh.cur() == b + k
    &&& st.stream.pos() == fpos(fh@, xs, c, b + k)
    &&& forall|j: int| 0 <= j < k ==> chan_dec(list[j], #[trigger] xs[j], t, t + fh@[b].size as int, true)
}
#[verifier::spinoff_prover]
pub proof fn lemma_seek_step(list: Seq<FrameCodec>, list2: Seq<FrameCodec>, h: CircularStack<i16>, init: bool, f2: FrameCodec, st: AudioStream, st2: AudioStream, fh: FrameHeaders, fh2: FrameHeaders, c: int, xs: Seq<Seq<i16>>, b: int, k: int)
    requires
        seek_mid(list, st, fh, c, xs, b, k), k < c, c >= 1, list.len() == c, list2 =~= list.update(k, f2),
        hist_at(h, xs[k], tt(fh@, c, b)), init == (tt(fh@, c, b) == 0),
        fh2@ =~= fh@, fh2.n() == fh.n(), fh2.cur() == b + k + 1,
        st2.stream.bits() =~= st.stream.bits(), st2.stream.nbits() >= st.stream.nbits(),
        f2.state is Decoding,
        ({ let x = xs[k]; let t = tt(fh@, c, b); let hd = fh.hdr(b + k);
            &&& hist_at(f2.sample_history, x, t + hd.size)
            &&& f2.buffered_channel@ =~= nzs(x, t, hd.size as int)
            &&& st2.stream.pos() == st.stream.pos() + off(init, hd.exponent as int, x, t, hd.size as int) }),
    ensures seek_mid(list2, st2, fh2, c, xs, b, k + 1)
{
    lemma_blk_ready(h, init, st, fh, c, xs, b, k);
    lemma_dec_n(fh, st, xs, c, b);
    assert(fh2@ == fh@);
    let t = tt(fh@, c, b); let sz = fh@[b].size as int;
    assert forall|j: int| 0 <= j < k + 1 implies chan_dec(list2[j], #[trigger] xs[j], t, t + sz, true) by {
        if j < k { assert(chan_dec(list[j], xs[j], t, t + sz, true)); }
    }
}
/// a block of samples of all channels: numbers that occur while positioning
pub proof fn lemma_blk_size(b: int, c: int, n: int, sz: int, i: int, nb: int)
    requires c >= 1, 0 <= i, i < nb, nb == n / c, n % c == 0, b == i * c, 0 <= sz <= 65535, n <= 0xffff_ffff, c <= 0xffff_ffff
    ensures b + c <= n, (i + 1) * c == b + c, sz * c <= 65535 * c, b * 65535 + sz * c <= (b + c) * 65535, 0 <= sz * c, (b + c) * 65535 <= 0xffff_ffff * 65535, b % c == 0, 0 <= b,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c);
    assert(c * nb == nb * c) by (nonlinear_arith);
    assert((i + 1) * c <= nb * c) by (nonlinear_arith) requires i + 1 <= nb, c >= 1;
    assert((i + 1) * c == i * c + c) by (nonlinear_arith);
    assert(0 <= i * c) by (nonlinear_arith) requires i >= 0, c >= 1;
    assert(0 <= sz * c <= 65535 * c) by (nonlinear_arith) requires 0 <= sz <= 65535, c >= 1;
    assert((b + c) * 65535 == b * 65535 + c * 65535) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(i, c);
}
//@ global
/// nothing has been read yet
pub proof fn lemma_fresh_start(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>)
    requires dec_full(fh, st, xs, c), fh.cur() == 0, st.stream.pos() == 0, list.len() == c, forall|k: int| 0 <= k < c ==> chan_fresh(#[trigger] list[k])
    ensures dec_parts(list, st, fh, c, xs, 0)
{
    vstd::arithmetic::div_mod::lemma_small_mod(0, c as nat);
    assert forall|j: int| 0 <= j < c implies chan_dec(list[j], #[trigger] xs[j], 0, 0, fh.cur() < fh.n()) by { assert(chan_fresh(list[j])); }
}
/// nothing is left to read
pub proof fn lemma_fresh_end(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>)
    requires dec_full(fh, st, xs, c), fh.cur() == fh.n(), list.len() == c, forall|k: int| 0 <= k < c ==> chan_fresh(#[trigger] list[k])
    ensures dec_parts(list, st, fh, c, xs, xs[0].len() as int), xs[0].len() == tt(fh@, c, fh.n())
{
    lemma_dec_n(fh, st, xs, c, fh.n());
    let t = xs[0].len() as int;
    assert forall|j: int| 0 <= j < c implies chan_dec(list[j], #[trigger] xs[j], t, t, fh.cur() < fh.n()) by { assert(chan_fresh(list[j])); }
}
//@ global
pub proof fn lemma_seek_done(list: Seq<FrameCodec>, st: AudioStream, fh: FrameHeaders, c: int, xs: Seq<Seq<i16>>, b: int)
    requires seek_mid(list, st, fh, c, xs, b, c), c >= 1, list.len() == c
    ensures dec_parts(list, st, fh, c, xs, tt(fh@, c, b)), tt(fh@, c, fh.cur()) == tt(fh@, c, b) + fh@[b].size, fh@[b].size >= 1
{
    lemma_dec_n(fh, st, xs, c, b);
    let t = tt(fh@, c, b);
    let e = t + fh@[b].size as int;
    assert forall|j: int| 0 <= j < c implies chan_dec(list[j], #[trigger] xs[j], t, e, fh.cur() < fh.n()) by { assert(chan_dec(list[j], xs[j], t, e, true)); }
}
//@ fn AdhocCodec as Streamable::seek
//@ opt floats frequency_in_millis sample_rate
//@ attr
#[verifier::rlimit(60)]
//@ attr
#[verifier::spinoff_prover]
//@ spec
    requires
        old(self).seekable(), dt is Start,
    ensures
        final(self).seekable(), final(self).dec_safe(), final(self).frame_header_list.is_init_frame_list == old(self).frame_header_list.is_init_frame_list, final(self).same_setup(old(self)), final(self).seq == old(self).seq,
        final(self).hs() =~= old(self).hs(), final(self).stream.stream.bits() =~= old(self).stream.stream.bits(),
        final(self).frame_header_list.n() == old(self).frame_header_list.n(),
        old(self).frame_header_list.wf() ==> final(self).frame_header_list.wf(),
        dt == SeekFrom::Start(0) ==> final(self).stream.stream.nbits() == old(self).stream.stream.nbits() && final(self).frame_header_list.cur() == 0 && final(self).stream.stream.pos() == 0
            && forall|k: int| 0 <= k < final(self).channel_state_list@.len() ==> chan_fresh(#[trigger] final(self).channel_state_list@[k]),
        forall|xs: Seq<Seq<i16>>| #[trigger] old(self).full(xs) ==> {
            let o = if dt == SeekFrom::Start(0) { 0 } else { set_at(old(self).stream.info->0.sample_rate, from_start(dt)) as int };
            final(self).dec_ok(xs, if o < xs[0].len() { o } else { xs[0].len() as int })
        },
//@ entry
    let ghost c = self.c();
    let ghost st0 = self.stream;
    let ghost fh0 = self.frame_header_list;
    let ghost n = fh0.n();
    let ghost o = if dt == SeekFrom::Start(0) { 0 } else { set_at(self.stream.info->0.sample_rate, from_start(dt)) as int };
//@ after self.init()
    let ghost fresh = self.channel_state_list@;
    proof {
        assert(self.frame_header_list@ == fh0@);
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies dec_parts(fresh, self.stream, self.frame_header_list, c, xs, 0) by {
            lemma_fresh_start(fresh, self.stream, self.frame_header_list, c, xs);
        }
        assert forall|k: int| 0 <= k < c implies chan_rd(#[trigger] self.channel_state_list@[k]) by { assert(chan_fresh(fresh[k])); }
    }
//@ loop 0
    invariant
        c >= 1, channels == c, c <= 0xffff_ffff, n == fh0.n(), n % c == 0, n <= 0xffff_ffff, header_block_len == n / c, 0 <= header_block_index <= header_block_len,
        frame_header_list.readable(), frame_header_list.n() == n, frame_header_list@ =~= fh0@, frame_header_list.is_init_frame_list == fh0.is_init_frame_list,
        0 <= header_block_index * c <= n, samples_skipped <= header_block_index * c * 65535,
        samples_skipped <= offset_in_blocks, samples_skipped <= 0xffff_ffff * 65535,
        forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) ==> samples_skipped == tt(fh0@, c, header_block_index * c) * c,
    ensures
        header_block_index < header_block_len ==> offset_in_blocks <= samples_skipped + fh0@[header_block_index * c].size * c,
    decreases header_block_len - header_block_index
//@ loop 0 before
    proof { assert(0 * c == 0); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c); assert(c * (n / c) == (n / c) * c) by (nonlinear_arith); }
//@ loop 0 begin
    let ghost b = header_block_index * c;
    let ghost i0 = header_block_index as int;
    proof { lemma_blk_size(b, c, n, fh0@[b].size as int, i0, header_block_len as int); }
//@ loop 0 end
    proof {
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies samples_skipped == tt(fh0@, c, header_block_index * c) * c by {
            lemma_dec_n(fh0, st0, xs, c, b);
            assert((tt(fh0@, c, b) + fh0@[b].size) * c == tt(fh0@, c, b) * c + fh0@[b].size * c) by (nonlinear_arith);
        }
    }
//@ after let start_header_index
    let ghost b = start_header_index as int;
    let ghost skip0 = samples_skipped as int;
    proof {
        if header_block_index < header_block_len { lemma_blk_size(b, c, n, fh0@[b].size as int, header_block_index as int, header_block_len as int); }
        else {
            assert(b == n);
            assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies tt(fh0@, c, n) <= o && xs[0].len() == tt(fh0@, c, n) by {
                lemma_dec_n(fh0, st0, xs, c, n);
                let t = tt(fh0@, c, n);
                assert(t <= o) by (nonlinear_arith) requires t * c <= o * c, c >= 1;
            }
        }
    }
//@ loop 1 label bt
    invariant
        bt.seq().len() == channels, forall|i: int| 0 <= i < bt.seq().len() ==> #[trigger] bt.seq()[i] == i,
        c >= 1, channels == c, c <= 0xffff_ffff, b == start_header_index, b % c == 0, 0 <= b, b + c <= n, n == fh0.n(), n % c == 0, n <= 0xffff_ffff,
        frame_header_list.readable(), frame_header_list.n() == n, frame_header_list@ =~= fh0@, frame_header_list.is_init_frame_list == fh0.is_init_frame_list, frame_header_list.cur() == b + bt.index@, fh0.wf() ==> frame_header_list.wf(),
        channel_state_list@.len() == c,
        forall|k: int| 0 <= k < c ==> chan_rd(#[trigger] channel_state_list@[k]),
        forall|k: int| bt.index@ <= k < c ==> chan_fresh(#[trigger] channel_state_list@[k]),
        stream_ok(stream.stream, frame_header_list.cur()), stream.stream.nbits() >= st0.stream.nbits(), stream.info == st0.info, stream.stream.bits() =~= st0.stream.bits(),
        forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) ==> seek_mid(channel_state_list@, *stream, *frame_header_list, c, xs, b, bt.index@ as int),
//@ loop 1 before
    proof {
        assert(fh0@[b].bit_cursor <= SILENT());
        assert(frame_header_list@[b] == frame_header_list.hdr(b));
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies seek_mid(channel_state_list@, *stream, *frame_header_list, c, xs, b, 0) by {
            assert(frame_header_list@ == fh0@);
            assert(hdr_ok(fh0@, st0.stream.bits(), xs, c, b));
        }
    }
//@ loop 1 begin
    let ghost k0 = bt.index@ as int;
    let ghost list_k = channel_state_list@;
    let ghost st_k = *stream;
    let ghost fh_k = *frame_header_list;
    proof { assert(offset == k0); assert(chan_fresh(list_k[k0])); assert(fh_k@[b + k0] == fh0@[b + k0]); }
//@ loop 2 label ht
    invariant
        ht.seq().len() == 3, forall|i: int| 0 <= i < ht.seq().len() ==> #[trigger] ht.seq()[i] == i,
        offset == k0, 0 <= k0 < c, list_k.len() == c, channel_state_list@.len() == c, chan_fresh(list_k[k0]),
        forall|k: int| 0 <= k < c && k != k0 ==> #[trigger] channel_state_list@[k] == list_k[k],
        channel_state_list@[k0].state == list_k[k0].state, channel_state_list@[k0].buffered_channel == list_k[k0].buffered_channel,
        ({ let h = channel_state_list@[k0].sample_history; let s = header.stack_history@;
            &&& h.wf()
            &&& (h.n() == 0) == (ht.index@ == 0)
            &&& ht.index@ == 1 ==> h.back(1) == s[0] && h.back(2) == s[0] && h.back(3) == s[0]
            &&& ht.index@ == 2 ==> h.back(1) == s[1] && h.back(2) == s[0] && h.back(3) == s[0]
            &&& ht.index@ == 3 ==> h.back(1) == s[2] && h.back(2) == s[1] && h.back(3) == s[0] }),
//@ before codec.decode_frame
    let ghost hist = codec.sample_history;
    let ghost init = codec.state is Init;
    proof {
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies hist_at(hist, xs[k0], tt(fh0@, c, b)) && init == (tt(fh0@, c, b) == 0) && tt(fh0@, c, b) <= xs[k0].len()
            && ready(hist, st_k.stream.bits(), st_k.stream.pos(), st_k.stream.nbits(), fh_k.hdr(b + k0), init, xs[k0], tt(fh0@, c, b)) by {
            assert(seek_mid(list_k, st_k, fh_k, c, xs, b, k0));
            assert(fh_k@ == fh0@);
            lemma_dec_n(fh0, st0, xs, c, b);
            lemma_mod_plus(b, k0, c);
            assert(hdr_ok(fh0@, st0.stream.bits(), xs, c, b + k0));
            lemma_tt_same(fh0@, st0.stream.bits(), xs, c, b, k0);
            if b > 0 { lemma_mod_gap(0, b, c); }
            assert(fh_k@[b + k0] == fh_k.hdr(b + k0));
            lemma_blk_ready(hist, init, st_k, fh_k, c, xs, b, k0);
        }
    }
//@ loop 1 end
    proof {
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies seek_mid(channel_state_list@, *stream, *frame_header_list, c, xs, b, k0 + 1) by {
            assert(fh_k@ == fh0@);
            lemma_seek_step(list_k, channel_state_list@, hist, init, channel_state_list@[k0], st_k, *stream, fh_k, *frame_header_list, c, xs, b, k0);
        }
    }
//@ loop 3
    invariant
        c >= 1, channels == c, c <= 0xffff_ffff, channel_state_list@.len() == c, 0 <= pops, samples_skipped == skip0 + pops * c, samples_skipped < offset_in_blocks + c,
        offset_in_blocks <= 0x2_0000_0000_0000, frame_header_list@ == fh0@, n == fh0.n(), n == frame_header_list.n(),
        forall|k: int| 0 <= k < c ==> chan_rd(#[trigger] channel_state_list@[k]),
        forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) ==> {
            let t = tt(fh0@, c, b);
            &&& skip0 == t * c && offset_in_blocks == o * c && offset_in_blocks <= (t + fh0@[b].size) * c && t + pops <= o
            &&& tt(fh0@, c, frame_header_list.cur()) == t + fh0@[b].size
            &&& dec_parts(channel_state_list@, *stream, *frame_header_list, c, xs, t + pops)
        },
    decreases offset_in_blocks + c - samples_skipped
//@ loop 3 before
    let ghost mut pops: int = 0;
    proof {
        assert(frame_header_list@ == fh0@);
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies ({
            let t = tt(fh0@, c, b);
            &&& skip0 == t * c && offset_in_blocks == o * c && offset_in_blocks <= (t + fh0@[b].size) * c && t + pops <= o
            &&& tt(fh0@, c, frame_header_list.cur()) == t + fh0@[b].size
            &&& dec_parts(channel_state_list@, *stream, *frame_header_list, c, xs, t + pops)
        }) by {
            lemma_dec_n(fh0, st0, xs, c, b);
            lemma_seek_done(channel_state_list@, *stream, *frame_header_list, c, xs, b);
            let t = tt(fh0@, c, b);
            assert((t + fh0@[b].size) * c == t * c + fh0@[b].size * c) by (nonlinear_arith);
            assert(t <= o) by (nonlinear_arith) requires t * c <= o * c, c >= 1;
        }
    }
//@ loop 3 begin
    let ghost list_p = channel_state_list@;
    let ghost skip_p = samples_skipped as int;
//@ loop 4 label pt
    invariant
        pt.seq().len() == channels, forall|i: int| 0 <= i < pt.seq().len() ==> #[trigger] pt.seq()[i] == i,
        channels == c, c <= 0xffff_ffff, channel_state_list@.len() == c, list_p.len() == c, samples_skipped == skip_p + pt.index@, skip_p < offset_in_blocks <= 0x2_0000_0000_0000,
        forall|k: int| 0 <= k < c ==> (#[trigger] channel_state_list@[k]).state == list_p[k].state && channel_state_list@[k].sample_history == list_p[k].sample_history,
        forall|k: int| pt.index@ <= k < c ==> #[trigger] channel_state_list@[k] == list_p[k],
        forall|k: int| 0 <= k < pt.index@ && list_p[k].buffered_channel@.len() > 0 ==> (#[trigger] channel_state_list@[k]).buffered_channel@ =~= list_p[k].buffered_channel@.skip(1),
//@ loop 4 begin
    proof { assert(offset == pt.index@); }
//@ loop 3 end
    proof {
        assert((pops + 1) * c == pops * c + c) by (nonlinear_arith);
        assert forall|k: int| 0 <= k < c implies chan_rd(#[trigger] channel_state_list@[k]) by { assert(chan_rd(list_p[k])); }
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies tt(fh0@, c, b) + pops + 1 <= o && dec_parts(channel_state_list@, *stream, *frame_header_list, c, xs, tt(fh0@, c, b) + pops + 1) by {
            let t = tt(fh0@, c, b);
            assert((t + pops) * c == t * c + pops * c) by (nonlinear_arith);
            let e = t + fh0@[b].size as int;
            assert(t + pops < e) by (nonlinear_arith) requires (t + pops) * c < e * c, c >= 1;
            assert(t + pops < o) by (nonlinear_arith) requires (t + pops) * c < o * c, c >= 1;
            assert(dec_parts(list_p, *stream, *frame_header_list, c, xs, t + pops));
            let live = frame_header_list.cur() < frame_header_list.n();
            assert forall|j: int| 0 <= j < c implies chan_dec(channel_state_list@[j], #[trigger] xs[j], t + pops + 1, e, live) by {
                assert(chan_dec(list_p[j], xs[j], t + pops, e, live));
            }
        }
        pops = pops + 1;
    }
//@ loop 3 after
    proof {
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(fh0, st0, xs, c) implies dec_parts(channel_state_list@, *stream, *frame_header_list, c, xs, o) && o <= xs[0].len() by {
            let t = tt(fh0@, c, b);
            assert((t + pops) * c == t * c + pops * c) by (nonlinear_arith);
            assert(o <= t + pops) by (nonlinear_arith) requires (t + pops) * c >= o * c, c >= 1;
            lemma_dec_n(*frame_header_list, *stream, xs, c, frame_header_list.cur());
        }
    }
//@ global
/// samples in the first i frames, all channels together
pub open spec fn total(hs: Seq<FrameHeader>, i: int) -> int decreases i { if i <= 0 { 0 } else { total(hs, i - 1) + hs[i - 1].size as int } }
pub proof fn lemma_total_block(fh: FrameHeaders, st: AudioStream, xs: Seq<Seq<i16>>, c: int, b: int, k: int)
    requires dec_full(fh, st, xs, c), c >= 1, 0 <= b < fh.n(), b % c == 0, 0 <= k <= c
    ensures total(fh@, b + k) == total(fh@, b) + k * fh@[b].size
    decreases k
{
    lemma_dec_n(fh, st, xs, c, b);
    if k > 0 {
        lemma_total_block(fh, st, xs, c, b, k - 1);
        lemma_tt_same(fh@, st.stream.bits(), xs, c, b, k - 1);
        assert(k * fh@[b].size == (k - 1) * fh@[b].size + fh@[b].size) by (nonlinear_arith);
    } else { assert(0 * fh@[b].size == 0); }
}
pub proof fn lemma_total(fh: FrameHeaders, st: AudioStream, xs: Seq<Seq<i16>>, c: int, i: int)
    requires dec_full(fh, st, xs, c), c >= 1, 0 <= i, i * c <= fh.n()
    ensures total(fh@, i * c) == tt(fh@, c, i * c) * c
    decreases i
{
    if i > 0 {
        let b = (i - 1) * c;
        assert(b == i * c - c) by (nonlinear_arith) requires b == (i - 1) * c;
        assert(b >= 0) by (nonlinear_arith) requires b == (i - 1) * c, i >= 1, c >= 1;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(i - 1, c);
        lemma_total(fh, st, xs, c, i - 1);
        lemma_dec_n(fh, st, xs, c, b);
        lemma_total_block(fh, st, xs, c, b, c);
        assert((tt(fh@, c, b) + fh@[b].size) * c == tt(fh@, c, b) * c + c * fh@[b].size) by (nonlinear_arith);
    } else { assert(0 * c == 0); }
}
//@ fn AdhocCodec::calculate_sample_count_per_channel
//@ ret r
//@ spec
    requires self.stream.info is Some, self.c() >= 1, self.frame_header_list.readable(), self.frame_header_list.n() <= 0xffff_ffff
    ensures r == total(self.hs(), self.frame_header_list.n()) / self.c(),
        forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(self.frame_header_list, self.stream, xs, self.c()) ==> r == xs[0].len(),
//@ entry
    let ghost n = self.frame_header_list.n();
    let ghost c = self.c();
//@ loop 0 label it
    invariant
        it.seq().len() == n, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i,
        n <= 0xffff_ffff, frame_header_list.readable(), n == frame_header_list.n(), *frame_header_list == self.frame_header_list,
        __vx_sum == total(frame_header_list@, it.index@ as int), __vx_sum <= it.index@ * 65535,
//@ loop 0 begin
    let ghost i0 = it.index@ as int;
    proof { assert(total(frame_header_list@, i0 + 1) == total(frame_header_list@, i0) + frame_header_list@[i0].size); }
//@ exit
    proof {
        assert forall|xs: Seq<Seq<i16>>| #[trigger] dec_full(self.frame_header_list, self.stream, xs, c) implies __vx_r == xs[0].len() by {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c);
            assert(c * (n / c) == (n / c) * c) by (nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, c);
            lemma_total(self.frame_header_list, self.stream, xs, c, n / c);
            lemma_dec_n(self.frame_header_list, self.stream, xs, c, n);
            vstd::arithmetic::div_mod::lemma_div_multiples_vanish(tt(self.hs(), c, n), c);
            assert(c * tt(self.hs(), c, n) == tt(self.hs(), c, n) * c) by (nonlinear_arith);
        }
    }
//@ fn AdhocCodec as Streamable::encode
//@ rename stream_encode
//@ ret r
//@ spec
    requires
        old(self).enc_safe(), old(self).room(samples@.len() as int / old(self).c()),
    ensures
        r == Some((samples@.len() - samples@.len() as int % old(self).c()) as usize),
        final(self).enc_safe(), final(self).same_setup(old(self)), old(self).frame_header_list.tidy() ==> final(self).frame_header_list.tidy(),
        samples@.len() >= old(self).c() || old(self).frame_header_list.n() == old(self).frame_header_list.cur() ==> final(self).frame_header_list.n() == final(self).frame_header_list.cur(),
        old(self).frame_header_list.cur() <= final(self).frame_header_list.cur() <= old(self).frame_header_list.cur() + (samples@.len() as int / old(self).c() / 65535 + 1) * old(self).c(),
        final(self).stream.stream.pos() <= old(self).stream.stream.pos() + samples@.len() * 18,
        grew(final(self).stream.stream, old(self).stream.stream),
        exists|vals: Seq<Seq<i16>>| #[trigger] coded(samples@, vals, old(self).c(), samples@.len() as int / old(self).c(), old(self).inv_scale)
            && forall|xs: Seq<Seq<i16>>| #[trigger] old(self).enc_ok(xs) ==> final(self).enc_ok(app(xs, vals, old(self).c())),
//@ entry
    broadcast use lemma_mod_def;
    let ghost c = self.c();
    proof { vstd::arithmetic::div_mod::lemma_mod_decreases(samples@.len(), c as nat); }
//@ fn AdhocCodec as Streamable::decode
//@ rename stream_decode
//@ ret r
//@ spec
    requires
        old(self).dec_safe(),
    ensures
        final(self).dec_safe(), old(self).seekable() ==> final(self).seekable(), final(self).frame_header_list.is_init_frame_list == old(self).frame_header_list.is_init_frame_list, final(self).same_setup(old(self)), final(self).seq == old(self).seq,
        final(self).hs() =~= old(self).hs(), final(self).stream.stream.bits() =~= old(self).stream.stream.bits(),
        final(samples)@.len() == old(samples)@.len(),
        r is Some ==> 0 < r->0 <= old(samples)@.len() && r->0 as int % old(self).c() == 0,
        forall|i: int| (if r is Some { r->0 as int } else { 0 }) <= i < old(samples)@.len() ==> final(samples)@[i] == old(samples)@[i],
        forall|xs: Seq<Seq<i16>>, m: int| #[trigger] old(self).dec_ok(xs, m) ==> {
            let c = old(self).c(); let l = old(samples)@.len() as int / c; let k = if l < xs[0].len() - m { l } else { xs[0].len() - m };
            &&& (r is None) == (k == 0) && (r is Some ==> r->0 == k * c)
            &&& final(self).dec_ok(xs, m + k)
            &&& forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] final(samples)@[t * c + j] == fmul(nz(#[trigger] xs[j][m + t]), old(self).scale)
        },
//@ exit
    proof {
        assert forall|xs: Seq<Seq<i16>>, m: int| #[trigger] old(self).dec_ok(xs, m) implies ({ let c = old(self).c(); let l = old(samples)@.len() as int / c; let k = if l < xs[0].len() - m { l } else { xs[0].len() - m }; (k * c == 0) == (k == 0) && (k > 0) == (k * c > 0)}) by {
            let c = old(self).c(); let l = old(samples)@.len() as int / c; let k = if l < xs[0].len() - m { l } else { xs[0].len() - m };
            assert((k * c == 0) == (k == 0) && (k > 0) == (k * c > 0)) by (nonlinear_arith) requires c >= 1;
        }
    }
//@ fn AdhocCodec as Streamable::info
//@ rename stream_info
//@ ret r
//@ spec
    requires self.stream.info is Some
    ensures Some(r) == self.stream.info
