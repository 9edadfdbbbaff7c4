// Programs that use the WAV codec as a user does, verified against the contracts alone.
//@ file src/codec/wav.rs
//@ global
/// Kani: leaf_wav_rewind
#[verifier::external_body]
pub proof fn axiom_offset_zero(rate: u32) ensures offset_of(rate, 0u64) == 0, offset_of(rate, 0i64) == 0 {}
/// what a user sees of a WAV codec: its samples and its position
pub struct WavState { pub s: Seq<i16>, pub p: int }
pub enum WavOp { Encode(Vec<f32>), Decode(usize), Seek(SeekFrom) }
pub open spec fn wav_step(st: WavState, rate: u32, c: int, op: WavOp) -> WavState {
    match op {
        WavOp::Encode(v) => { let n = (v@.len() as int / c) * c; WavState { s: put(st.s, st.p, quantised(v@.take(n))), p: st.p + n } }
        WavOp::Decode(size) => { let n = (size as int / c) * c; let k = if n < st.s.len() - st.p { n } else { st.s.len() - st.p }; WavState { s: st.s, p: st.p + k } }
        WavOp::Seek(dt) => WavState { s: st.s, p: target(rate, c, st.p, st.s.len() as int, dt) },
    }
}
pub open spec fn wav_run(st: WavState, rate: u32, c: int, ops: Seq<WavOp>, n: int) -> WavState decreases n {
    if n <= 0 { st } else { wav_step(wav_run(st, rate, c, ops, n - 1), rate, c, ops[n - 1]) }
}
pub open spec fn op_len(op: WavOp) -> int { match op { WavOp::Encode(v) => v@.len() as int, _ => 0 } }
pub open spec fn op_lens(ops: Seq<WavOp>, n: int) -> int decreases n { if n <= 0 { 0 } else { op_lens(ops, n - 1) + op_len(ops[n - 1]) } }
pub proof fn lemma_op_lens(ops: Seq<WavOp>, i: int, n: int)
    requires 0 <= i <= n <= ops.len()
    ensures 0 <= op_lens(ops, i) <= op_lens(ops, n)
    decreases n
{ if n > 0 { if i < n { lemma_op_lens(ops, i, n - 1); } else { lemma_op_lens(ops, 0, n - 1); } } }
/// any history of encoding, decoding and seeking: the codec is where and what the history says
pub fn client_wav_history(w: &mut WavCodec, ops: &Vec<WavOp>)
    requires old(w).wf(), old(w).pcm@.len() + 2 * op_lens(ops@, ops@.len() as int) <= MAXPCM()
    ensures final(w).wf(), final(w).info == old(w).info, (WavState { s: final(w).smp(), p: final(w).at() }) == wav_run(WavState { s: old(w).smp(), p: old(w).at() }, old(w).info.sample_rate, old(w).ch(), ops@, ops@.len() as int),
{
    let ghost st0 = WavState { s: w.smp(), p: w.at() };
    let ghost rate = w.info.sample_rate; let ghost c = w.ch();
    let mut i: usize = 0;
    while i < ops.len()
        invariant 0 <= i <= ops@.len(), w.wf(), w.info == old(w).info, w.ch() == c, rate == w.info.sample_rate, c >= 1, old(w).pcm@.len() + 2 * op_lens(ops@, ops@.len() as int) <= MAXPCM(),
            w.pcm@.len() <= old(w).pcm@.len() + 2 * op_lens(ops@, i as int),
            (WavState { s: w.smp(), p: w.at() }) == wav_run(st0, rate, c, ops@, i as int),
        decreases ops@.len() - i
    {
        proof { lemma_op_lens(ops@, i + 1, ops@.len() as int); lemma_op_lens(ops@, i as int, ops@.len() as int); }
        let ghost before = *w;
        match &ops[i] {
            WavOp::Encode(v) => {
                proof { lemma_whole_sets2(v@.len() as int, c); }
                let r = w.stream_encode(v);
                assert(r is Some && r->0 == (v@.len() as int / c) * c);
            }
            WavOp::Decode(size) => {
                let mut buf: Vec<f32> = Vec::new();
                buf.resize(*size, 0.0);
                let r = w.stream_decode(&mut buf);
            }
            WavOp::Seek(dt) => { w.stream_seek(*dt); }
        }
        i += 1;
    }
}
/// the whole sets of channels in the first n buffers
pub open spec fn wsets(bufs: Seq<Vec<f32>>, c: int, n: int) -> Seq<f32> decreases n {
    if n <= 0 { Seq::empty() } else { wsets(bufs, c, n - 1) + bufs[n - 1]@.take((bufs[n - 1]@.len() as int / c) * c) }
}
pub open spec fn wlens(bufs: Seq<Vec<f32>>, n: int) -> int decreases n { if n <= 0 { 0 } else { wlens(bufs, n - 1) + bufs[n - 1]@.len() } }
pub proof fn lemma_wlens(bufs: Seq<Vec<f32>>, i: int, n: int)
    requires 0 <= i <= n <= bufs.len()
    ensures 0 <= wlens(bufs, i) <= wlens(bufs, n)
    decreases n
{ if n > 0 { if i < n { lemma_wlens(bufs, i, n - 1); } else { lemma_wlens(bufs, 0, n - 1); } } }
/// samples asked for by the first i buffers, and how many of them there are
pub open spec fn asked(sizes: Seq<usize>, c: int, i: int) -> int decreases i { if i <= 0 { 0 } else { asked(sizes, c, i - 1) + (sizes[i - 1] as int / c) * c } }
pub open spec fn reach(len: int, sizes: Seq<usize>, c: int, i: int) -> int { if asked(sizes, c, i) < len { asked(sizes, c, i) } else { len } }
/// everything after a rewind, whatever was done before: the samples in order, the rest of each buffer as it was
pub open spec fn played(outs: Seq<Vec<f32>>, ns: Seq<usize>, s: Seq<i16>, sizes: Seq<usize>, c: int, fill: f32) -> bool {
    &&& outs.len() == sizes.len() && ns.len() == sizes.len()
    &&& forall|i: int| 0 <= i < sizes.len() ==> #[trigger] played1(outs[i]@, ns[i] as int, s, reach(s.len() as int, sizes, c, i), reach(s.len() as int, sizes, c, i + 1), sizes[i] as int, fill)
}
pub open spec fn played1(out: Seq<f32>, n: int, s: Seq<i16>, a: int, b: int, size: int, fill: f32) -> bool {
    out.len() == size && n == b - a && 0 <= n <= size && forall|k: int| 0 <= k < size ==> #[trigger] out[k] == (if k < n { nz(s[a + k]) } else { fill })
}
pub fn client_wav_play(w: &mut WavCodec, sizes: &Vec<usize>, fill: f32) -> (r: (Vec<Vec<f32>>, Vec<usize>))
    requires old(w).wf()
    ensures final(w).wf(), final(w).info == old(w).info, final(w).pcm == old(w).pcm, played(r.0@, r.1@, old(w).smp(), sizes@, old(w).ch(), fill)
{
    let ghost c = w.ch(); let ghost s = w.smp(); let ghost n = s.len() as int;
    proof { axiom_offset_zero(w.info.sample_rate); assert(0 * c == 0); }
    w.stream_seek(SeekFrom::Start(0));
    let mut outs: Vec<Vec<f32>> = Vec::new();
    let mut ns: Vec<usize> = Vec::new();
    let mut i: usize = 0;
    while i < sizes.len()
        invariant 0 <= i <= sizes@.len(), w.wf(), w.info == old(w).info, w.pcm == old(w).pcm, c == w.ch(), s == w.smp(), n == s.len(), c >= 1,
            w.at() == reach(n, sizes@, c, i as int), asked(sizes@, c, i as int) >= 0,
            outs@.len() == i, ns@.len() == i,
            forall|j: int| 0 <= j < i ==> #[trigger] played1(outs@[j]@, ns@[j] as int, s, reach(n, sizes@, c, j), reach(n, sizes@, c, j + 1), sizes@[j] as int, fill),
        decreases sizes@.len() - i
    {
        let mut buf: Vec<f32> = Vec::new();
        buf.resize(sizes[i], fill);
        proof { lemma_whole_sets2(sizes@[i as int] as int, c); }
        let r = w.stream_decode(&mut buf);
        let got = match r { Some(k) => k, None => 0 };
        outs.push(buf);
        ns.push(got);
        i += 1;
    }
    (outs, ns)
}
/// a new codec that is given these buffers, rewound and decoded
pub fn client_wav(info: StreamInfo, bufs: &Vec<Vec<f32>>, sizes: &Vec<usize>, fill: f32) -> (r: (Vec<Vec<f32>>, Vec<usize>))
    requires info.channels >= 1, 2 * wlens(bufs@, bufs@.len() as int) <= MAXPCM()
    ensures played(r.0@, r.1@, quantised(wsets(bufs@, info.channels as int, bufs@.len() as int)), sizes@, info.channels as int, fill)
{
    let mut w = WavCodec::new(info);
    let ghost c = info.channels as int;
    let mut i: usize = 0;
    while i < bufs.len()
        invariant 0 <= i <= bufs@.len(), w.wf(), w.info == info, c == info.channels, c >= 1, 2 * wlens(bufs@, bufs@.len() as int) <= MAXPCM(),
            w.smp() =~= quantised(wsets(bufs@, c, i as int)), w.at() == w.smp().len(), w.pcm@.len() <= 2 * wlens(bufs@, i as int),
        decreases bufs@.len() - i
    {
        proof { lemma_wlens(bufs@, i + 1, bufs@.len() as int); lemma_wlens(bufs@, i as int, bufs@.len() as int); lemma_whole_sets2(bufs@[i as int]@.len() as int, c); }
        let r = w.stream_encode(&bufs[i]);
        i += 1;
    }
    client_wav_play(&mut w, sizes, fill)
}
/// the letters "data" are not among the bytes before the data of the header (where they are, `load` takes them for the data chunk)
pub open spec fn plain(rate: int, c: int, n: int) -> bool { forall|j: int| 0 <= j < 36 ==> !#[trigger] is_data(canonical(rate, c, n), j) }
/// ordinary audio has such a header
pub proof fn lemma_plain(rate: int, c: int, n: int)
    requires 1 <= c <= 255, 0 <= rate, rate * c < 0x800_0000, 0 <= n < 0x4000_0000
    ensures plain(rate, c, n)
{
    let b = canonical(rate, c, n);
    assert(b.len() == 44);
    assert(rate < 0x800_0000) by (nonlinear_arith) requires rate * c < 0x800_0000, c >= 1, 0 <= rate;
    let r4 = b4(rate as u32); let n4 = b4(n as u32); let y4 = b4((rate * c * 2) as u32);
    let x = rate as u32; let y = (rate * c * 2) as u32; let k = c as i16; let k2 = (c * 2) as i16;
    assert(((x >> 24u32) & 0xff) as u8 <= 8) by (bit_vector) requires x < 0x800_0000;
    assert(((y >> 24u32) & 0xff) as u8 <= 16) by (bit_vector) requires y < 0x1000_0000;
    assert(hi(k) == 0) by { assert(((k as u16 >> 8u16) & 0xff) as u8 == 0) by (bit_vector) requires 0 <= k <= 255; }
    assert(lo(1i16) == 1 && hi(1i16) == 0 && lo(16i16) == 16 && hi(16i16) == 0) by {
        assert((1i16 as u16 & 0xff) as u8 == 1 && ((1i16 as u16 >> 8u16) & 0xff) as u8 == 0 && (16i16 as u16 & 0xff) as u8 == 16 && ((16i16 as u16 >> 8u16) & 0xff) as u8 == 0) by (bit_vector);
    }
    assert(b[20] == 1 && b[21] == 0 && b[22] == lo(k) && b[23] == 0 && b[34] == 16 && b[35] == 0);
    let z = (36 + n) as u32; let z4 = b4(z);
    assert(((z >> 24u32) & 0xff) as u8 <= 64) by (bit_vector) requires z < 0x4000_0040;
    assert((16u32 & 0xff) as u8 == 16 && ((16u32 >> 8u32) & 0xff) as u8 == 0 && ((16u32 >> 16u32) & 0xff) as u8 == 0 && ((16u32 >> 24u32) & 0xff) as u8 == 0) by (bit_vector);
    let f4 = b4(16u32);
    assert(b[0] == 82 && b[1] == 73 && b[2] == 70 && b[3] == 70 && b[4] == z4[0] && b[5] == z4[1] && b[6] == z4[2] && b[7] == z4[3] && b[7] <= 64);
    assert(b[8] == 87 && b[9] == 65 && b[10] == 86 && b[11] == 69 && b[12] == 102 && b[13] == 109 && b[14] == 116 && b[15] == 32);
    assert(b[16] == f4[0] && b[17] == f4[1] && b[18] == f4[2] && b[19] == f4[3]);
    assert(b[16] == 16 && b[17] == 0 && b[18] == 0 && b[19] == 0);
    assert(b[24] == r4[0] && b[25] == r4[1] && b[26] == r4[2] && b[27] == r4[3] && b[27] <= 8);
    assert(b[28] == y4[0] && b[29] == y4[1] && b[30] == y4[2] && b[31] == y4[3] && b[31] <= 16);
    assert(b[40] == n4[0] && b[41] == n4[1] && b[42] == n4[2] && b[43] == n4[3]);
    assert forall|j: int| 0 <= j < 36 implies !#[trigger] is_data(b, j) by {
        if j == 0 || j == 1 || j == 2 || j == 3 || j == 4 || j == 5 || j == 6 || j == 7 {} else if j == 8 || j == 9 || j == 10 || j == 11 || j == 12 || j == 13 || j == 14 || j == 15 {}
        else if j == 16 || j == 17 || j == 18 || j == 19 || j == 20 || j == 21 || j == 22 || j == 23 {} else if j == 24 || j == 25 || j == 26 || j == 27 || j == 28 || j == 29 || j == 30 || j == 31 {}
        else { assert(j == 32 || j == 33 || j == 34 || j == 35); }
    }
}
/// what a canonical file says
pub proof fn lemma_canonical(rate: int, c: int, pcm: Seq<u8>)
    requires 1 <= c <= 0x7fff, 0 <= rate <= 0xffff_ffff, pcm.len() <= 0xffff_ffff - 36, plain(rate, c, pcm.len() as int)
    ensures ({ let b = canonical(rate, c, pcm.len() as int) + pcm; wav_ok(b, 36) && at2(b, 22) == c && at2(b, 34) == 16 && at4(b, 24) == rate && data_of(b, 36) =~= pcm }),
{
    let n = pcm.len() as int; let h = canonical(rate, c, n); let b = h + pcm;
    assert(h.len() == 44);
    lemma_le2(1i16); lemma_le2(c as i16); lemma_le2(16i16); lemma_b4(rate as u32); lemma_b4(n as u32);
    let r4 = b4(rate as u32); let n4 = b4(n as u32); let k = c as i16;
    assert(lo(1i16) == 1 && hi(1i16) == 0 && lo(16i16) == 16 && hi(16i16) == 0) by {
        assert((1i16 as u16 & 0xff) as u8 == 1 && ((1i16 as u16 >> 8u16) & 0xff) as u8 == 0 && (16i16 as u16 & 0xff) as u8 == 16 && ((16i16 as u16 >> 8u16) & 0xff) as u8 == 0) by (bit_vector);
    }
    assert(b[20] == 1 && b[21] == 0 && b[22] == lo(k) && b[23] == hi(k) && b[34] == 16 && b[35] == 0);
    assert(b[24] == r4[0] && b[25] == r4[1] && b[26] == r4[2] && b[27] == r4[3]);
    assert(b[40] == n4[0] && b[41] == n4[1] && b[42] == n4[2] && b[43] == n4[3]);
    assert(is_data(b, 36));
    assert forall|j: int| 0 <= j < 36 implies !#[trigger] is_data(b, j) by {
        assert(!is_data(h, j));
        assert(b[j] == h[j] && b[j + 1] == h[j + 1] && b[j + 2] == h[j + 2] && b[j + 3] == h[j + 3]);
    }
    assert(data_of(b, 36) =~= pcm);
}
/// saved and loaded again
pub fn client_wav_save_load(w: &WavCodec, dst: &mut VxOut, src: VxIn) -> (r: Option<WavCodec>)
    requires w.wf(), w.ch() <= 0x7fff, 2 * (w.info.sample_rate * w.ch()) <= 0xffff_ffff, w.pcm@.len() <= 0xffff_ffff - 36, plain(w.info.sample_rate as int, w.ch(), w.pcm@.len() as int),
        old(dst).takes(), old(dst).text().len() == 0, src.pos() == 0, src.ok(), src.content() == canonical(w.info.sample_rate as int, w.ch(), w.pcm@.len() as int) + w.pcm@,
    ensures
        final(dst).text() == src.content(),
        r is Some && r->0.wf() && r->0.info == w.info && r->0.smp() =~= w.smp() && r->0.pcm@ =~= w.pcm@ && r->0.at() == 0,
{
    let s = w.save_to(dst);
    proof { lemma_canonical(w.info.sample_rate as int, w.ch(), w.pcm@); }
    assert(dst.text() =~= src.content());
    match WavCodec::load(src) {
        Ok(v) => {
            proof {
                assert(wav_ok(src.content(), 36));
                lemma_multiples(w.smp().len() as int, w.at(), w.ch());
                assert(w.smp() =~= whole(sampled(w.pcm@, 16), w.ch()));
                lemma_pcm_of(v.pcm@, w.pcm@);
            }
            Some(v)
        }
        Err(_e) => None,
    }
}
/// the samples determine the bytes
pub proof fn lemma_pcm_of(a: Seq<u8>, b: Seq<u8>)
    requires a.len() % 2 == 0, b.len() % 2 == 0, samples(a) == samples(b)
    ensures a =~= b
{
    assert(samples(a).len() == (a.len() as int / 2) && samples(b).len() == (b.len() as int / 2));
    assert(a.len() == 2 * samples(a).len() && b.len() == 2 * samples(b).len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let k = i / 2;
        assert(i == 2 * k || i == 2 * k + 1);
        assert(samples(a)[k] == samples(b)[k]);
        assert(0 <= k < samples(a).len());
        assert(samples(a)[k] == le2(a[2 * k], a[2 * k + 1]) && samples(b)[k] == le2(b[2 * k], b[2 * k + 1]));
        lemma_bytes(a[2 * k], a[2 * k + 1]); lemma_bytes(b[2 * k], b[2 * k + 1]);
    }
}
pub proof fn lemma_bytes(a: u8, b: u8) ensures lo(le2(a, b)) == a, hi(le2(a, b)) == b {
    reveal(le2);
    assert(((((a as u16) | ((b as u16) << 8u16)) as i16) as u16 & 0xff) as u8 == a) by (bit_vector);
    assert((((((a as u16) | ((b as u16) << 8u16)) as i16) as u16 >> 8u16) & 0xff) as u8 == b) by (bit_vector);
}
/// any bytes whatsoever: rejected, or a codec that any history leaves without a panic
pub fn client_wav_damaged(src: VxIn, ops: &Vec<WavOp>, sizes: &Vec<usize>)
    requires src.content().len() <= 0x7fff_ffff_ffff_0000, src.pos() == 0, op_lens(ops@, ops@.len() as int) <= 0x1000_0000_0000_0000
{
    match WavCodec::load(src) {
        Ok(w) => {
            let mut w = w;
            assert(w.ch() >= 1);
            client_wav_history(&mut w, ops);
            let r = client_wav_play(&mut w, sizes, 0.0);
        }
        Err(_e) => {}
    }
}
/// what is announced is what is written
pub fn client_wav_size(w: &WavCodec, dst: &mut VxOut) -> (r: u64)
    requires w.wf(), w.ch() <= 0x7fff, 2 * (w.info.sample_rate * w.ch()) <= 0xffff_ffff, w.pcm@.len() <= 0xffff_ffff - 36, old(dst).takes(), old(dst).text().len() == 0,
    ensures r == 8 * final(dst).text().len()
{
    let r = w.stream_filesize_upperbound();
    let s = w.save_to(dst);
    r
}
