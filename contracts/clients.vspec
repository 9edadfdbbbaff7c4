// Programs that use the codec as a user does. They are verified against the contracts alone, for every input:
// what they ensure are the end-to-end properties.
//@ file src/codec/adhoc.rs
//@ global
pub open spec fn none(c: int) -> Seq<Seq<i16>> { Seq::new(c as nat, |j: int| Seq::<i16>::empty()) }
/// a codec at its start, with nothing in its channel states
pub open spec fn at_start(cd: AdhocCodec) -> bool {
    &&& cd.ready() && cd.frame_header_list.wf() && cd.stream.stream.wf()
    &&& cd.frame_header_list.cur() == 0 && cd.stream.stream.pos() == 0
    &&& forall|k: int| 0 <= k < cd.c() ==> chan_fresh(#[trigger] cd.channel_state_list@[k])
}
pub proof fn lemma_start_enc(cd: AdhocCodec)
    requires at_start(cd)
    ensures cd.enc_ok(none(cd.c()))
{
    let c = cd.c(); let xs = none(c);
    let hs = cd.frame_header_list@.take(0);
    vstd::arithmetic::div_mod::lemma_small_mod(0, c as nat);
    assert forall|k: int| 0 <= k < c implies chan_enc(cd.channel_state_list@[k], #[trigger] xs[k]) by { assert(chan_fresh(cd.channel_state_list@[k])); }
    assert forall|i: int| hs.len() <= i < hs.len() + c implies xs[i % c].len() == #[trigger] tt(hs, c, i) by { lemma_mod_step(i, c); }
}
/// what has been encoded is a whole recording
pub proof fn lemma_enc_full(cd: AdhocCodec, xs: Seq<Seq<i16>>)
    requires cd.enc_ok(xs), cd.frame_header_list.n() == cd.frame_header_list.cur(), cd.stream.stream.nbits() <= SILENT()
    ensures cd.full(xs)
{
    let hs = cd.hs(); let c = cd.c(); let s = cd.stream.stream.bits();
    assert(hs.take(hs.len() as int) =~= hs);
    assert forall|i: int| 0 <= i < hs.len() implies (#[trigger] hs[i]).bit_cursor <= SILENT() && hs[i].bit_cursor <= cd.stream.stream.nbits() by {
        assert(hdr_ok(hs, s, xs, c, i));
        lemma_fpos_mono(hs, s, xs, c, i, hs.len() as int);
    }
}
/// rewound, it is read from its first sample
pub proof fn lemma_start_dec(cd: AdhocCodec, xs: Seq<Seq<i16>>)
    requires at_start(cd), cd.full(xs)
    ensures cd.dec_ok(xs, 0)
{
    lemma_fresh_start(cd.channel_state_list@, cd.stream, cd.frame_header_list, cd.c(), xs);
    assert forall|k: int| 0 <= k < cd.c() implies chan_rd(#[trigger] cd.channel_state_list@[k]) by { assert(chan_fresh(cd.channel_state_list@[k])); }
}
/// the whole sets of channels in the first n buffers
pub open spec fn sets(bufs: Seq<Vec<f32>>, c: int, n: int) -> Seq<f32> decreases n {
    if n <= 0 { Seq::empty() } else { sets(bufs, c, n - 1) + bufs[n - 1]@.take((bufs[n - 1]@.len() as int / c) * c) }
}
pub open spec fn nsets(bufs: Seq<Vec<f32>>, c: int, n: int) -> int decreases n { if n <= 0 { 0 } else { nsets(bufs, c, n - 1) + bufs[n - 1]@.len() as int / c } }
pub proof fn lemma_nsets(bufs: Seq<Vec<f32>>, c: int, n: int)
    requires c >= 1, 0 <= n <= bufs.len()
    ensures sets(bufs, c, n).len() == nsets(bufs, c, n) * c, nsets(bufs, c, n) >= 0
    decreases n
{
    if n > 0 {
        lemma_nsets(bufs, c, n - 1);
        lemma_whole_sets(bufs[n - 1]@.len() as int, c);
        assert((nsets(bufs, c, n - 1) + bufs[n - 1]@.len() as int / c) * c == nsets(bufs, c, n - 1) * c + (bufs[n - 1]@.len() as int / c) * c) by (nonlinear_arith);
    } else { assert(0 * c == 0); }
}
pub proof fn lemma_coded_take(pcm: Seq<f32>, vals: Seq<Seq<i16>>, c: int, n: int, inv: f32)
    requires c >= 1, 0 <= n, n * c <= pcm.len(), coded(pcm, vals, c, n, inv)
    ensures coded(pcm.take(n * c), vals, c, n, inv)
{
    assert forall|j: int, t: int| 0 <= j < c && 0 <= t < n implies qrel(inv, #[trigger] pcm.take(n * c)[t * c + j], #[trigger] vals[j][t]) by {
        lemma_cell(t, n, j, c);
        assert(pcm.take(n * c)[t * c + j] == pcm[t * c + j]);
    }
}
/// two recordings one behind the other
pub proof fn lemma_coded_cat(a: Seq<f32>, va: Seq<Seq<i16>>, m: int, b: Seq<f32>, vb: Seq<Seq<i16>>, k: int, c: int, inv: f32)
    requires c >= 1, 0 <= m, 0 <= k, a.len() == m * c, b.len() == k * c, coded(a, va, c, m, inv), coded(b, vb, c, k, inv)
    ensures coded(a + b, app(va, vb, c), c, m + k, inv)
{
    let pcm = a + b;
    lemma_split_sets(m + k, m, k, c);
    assert forall|j: int, t: int| 0 <= j < c && 0 <= t < m implies qrel(inv, #[trigger] pcm[t * c + j], #[trigger] va[j][t]) by {
        lemma_cell(t, m, j, c);
        assert(pcm[t * c + j] == a[t * c + j]);
    }
    assert(b =~= pcm.subrange(m * c, (m + k) * c));
    lemma_coded_app(pcm, b, va, vb, c, m, k, m + k, inv);
}
/// room for everything in the buffers
pub open spec fn room_for(bufs: Seq<Vec<f32>>, c: int, from: int) -> bool {
    &&& (lens(bufs, bufs.len() as int)) * 18 + 0x2_0000_0000 <= SILENT()
    &&& hroom(bufs, c, bufs.len() as int) <= 0xffff_ffff
}
pub open spec fn lens(bufs: Seq<Vec<f32>>, n: int) -> int decreases n { if n <= 0 { 0 } else { lens(bufs, n - 1) + bufs[n - 1]@.len() } }
pub open spec fn hroom(bufs: Seq<Vec<f32>>, c: int, n: int) -> int decreases n { if n <= 0 { 0 } else { hroom(bufs, c, n - 1) + (bufs[n - 1]@.len() as int / c / 65535 + 1) * c } }
pub proof fn lemma_lens(bufs: Seq<Vec<f32>>, c: int, i: int, n: int)
    requires 0 <= i <= n <= bufs.len(), c >= 1
    ensures 0 <= lens(bufs, i) <= lens(bufs, n), 0 <= hroom(bufs, c, i) <= hroom(bufs, c, n)
    decreases n
{
    if n > 0 {
        let l = bufs[n - 1]@.len() as int;
        lemma_whole_sets(l, c);
        assert((l / c / 65535 + 1) * c >= 0) by (nonlinear_arith) requires l / c >= 0, c >= 1;
        if i < n { lemma_lens(bufs, c, i, n - 1); } else { lemma_lens(bufs, c, 0, n - 1); }
    }
}
/// no allocation has exceeded what the contracts cover
pub open spec fn small(cd: AdhocCodec) -> bool { cd.stream.stream.nbits() <= SILENT() && cd.frame_header_list.n() <= 0xffff_ffff }
/// any number of encode calls, from the start of a fresh or rewound codec
#[verifier::spinoff_prover]
pub fn client_encode_all(cd: &mut AdhocCodec, bufs: &Vec<Vec<f32>>) -> (xs: Ghost<Seq<Seq<i16>>>)
    requires at_start(*old(cd)), small(*old(cd)), room_for(bufs@, old(cd).c(), 0)
    ensures
        final(cd).enc_ok(xs@), final(cd).same_setup(old(cd)), old(cd).frame_header_list.tidy() ==> final(cd).frame_header_list.tidy(),
        coded(sets(bufs@, old(cd).c(), bufs@.len() as int), xs@, old(cd).c(), nsets(bufs@, old(cd).c(), bufs@.len() as int), old(cd).inv_scale),
        nsets(bufs@, old(cd).c(), bufs@.len() as int) > 0 || old(cd).frame_header_list.n() == 0 ==> final(cd).full(xs@),
{
    let ghost c = cd.c();
    let ghost mut xs = none(c);
    let ghost m = bufs@.len() as int;
    let mut i: usize = 0;
    proof { lemma_start_enc(*cd); assert(0 * c == 0); }
    while i < bufs.len()
        invariant
            c >= 1, c == cd.c(), c == old(cd).c(), m == bufs@.len(), 0 <= i <= m, room_for(bufs@, c, 0),
            cd.enc_ok(xs), cd.same_setup(old(cd)), old(cd).frame_header_list.tidy() ==> cd.frame_header_list.tidy(), xs.len() == c,
            coded(sets(bufs@, c, i as int), xs, c, nsets(bufs@, c, i as int), old(cd).inv_scale),
            nsets(bufs@, c, i as int) > 0 || old(cd).frame_header_list.n() == 0 ==> cd.frame_header_list.n() == cd.frame_header_list.cur(),
            nsets(bufs@, c, i as int) >= 0,
            cd.stream.stream.pos() <= lens(bufs@, i as int) * 18,
            cd.frame_header_list.cur() <= hroom(bufs@, c, i as int),
            cd.stream.stream.nbits() <= SILENT(),
        decreases m - i
    {
        let ghost before = *cd;
        let ghost p = bufs@[i as int]@;
        let ghost k = p.len() as int / c;
        proof {
            lemma_lens(bufs@, c, i + 1, m);
            lemma_whole_sets(p.len() as int, c);
            lemma_nsets(bufs@, c, i as int);
        }
        let r = cd.stream_encode(&bufs[i]);
        proof {
            let v = choose|v: Seq<Seq<i16>>| #[trigger] coded(p, v, c, k, old(cd).inv_scale) && forall|xs: Seq<Seq<i16>>| #[trigger] before.enc_ok(xs) ==> cd.enc_ok(app(xs, v, c));
            let a = sets(bufs@, c, i as int); let b = p.take(k * c);
            lemma_coded_take(p, v, c, k, old(cd).inv_scale);
            lemma_coded_cat(a, xs, nsets(bufs@, c, i as int), b, v, k, c, old(cd).inv_scale);
            xs = app(xs, v, c);
            assert(k >= 1 ==> p.len() >= c) by (nonlinear_arith) requires k * c <= p.len(), c >= 1;
            assert((lens(bufs@, i as int) + p.len()) * 18 == lens(bufs@, i as int) * 18 + p.len() * 18) by (nonlinear_arith);
        }
        i += 1;
    }
    proof {
        lemma_nsets(bufs@, c, m);
        lemma_lens(bufs@, c, m, m);
        if nsets(bufs@, c, m) > 0 || old(cd).frame_header_list.n() == 0 { lemma_enc_full(*cd, xs); }
    }
    Ghost(xs)
}
/// a new recording: set up, encode, rewind
pub fn client_record(info: StreamInfo, level: u32, bufs: &Vec<Vec<f32>>) -> (r: (AdhocCodec, Ghost<Seq<Seq<i16>>>))
    requires info.channels >= 1, room_for(bufs@, info.channels as int, 0)
    ensures
        r.0.stream.info == Some(info), r.0.lvl_ok(), r.0.compression_level == (if level > 10 { 10 } else { level }),
        at_start(r.0), r.0.full(r.1@), r.0.dec_ok(r.1@, 0), r.0.frame_header_list.tidy(),
        coded(sets(bufs@, info.channels as int, bufs@.len() as int), r.1@, info.channels as int, nsets(bufs@, info.channels as int, bufs@.len() as int), r.0.inv_scale),
{
    let mut cd = AdhocCodec::new().with_compression_level(level).with_info(info);
    proof { vstd::arithmetic::div_mod::lemma_small_mod(0, info.channels as nat); }
    let xs = client_encode_all(&mut cd, bufs);
    let ghost e = cd;
    cd.init();
    proof { lemma_init_keeps(e, cd, xs@); lemma_start_dec(cd, xs@); }
    (cd, xs)
}
pub proof fn lemma_init_keeps(a: AdhocCodec, b: AdhocCodec, xs: Seq<Seq<i16>>)
    requires a.full(xs), b.same_setup(&a), b.seq == a.seq, b.stream.stream.pos() == 0, b.stream.stream.binary == a.stream.stream.binary, b.stream.stream.wf(),
        b.frame_header_list.readable(), b.hs() =~= a.hs(), b.frame_header_list.n() == a.frame_header_list.n(), b.channel_state_list@.len() == a.channel_state_list@.len(),
    ensures b.full(xs)
{}
/// a used codec is rewound and records something else
pub fn client_record_again(cd: &mut AdhocCodec, bufs: &Vec<Vec<f32>>) -> (xs: Ghost<Seq<Seq<i16>>>)
    requires old(cd).seekable(), old(cd).frame_header_list.wf(), small(*old(cd)), room_for(bufs@, old(cd).c(), 0), nsets(bufs@, old(cd).c(), bufs@.len() as int) > 0
    ensures
        final(cd).enc_ok(xs@), final(cd).full(xs@), final(cd).same_setup(old(cd)), old(cd).frame_header_list.tidy() ==> final(cd).frame_header_list.tidy(),
        coded(sets(bufs@, old(cd).c(), bufs@.len() as int), xs@, old(cd).c(), nsets(bufs@, old(cd).c(), bufs@.len() as int), old(cd).inv_scale),
{
    cd.seek(SeekFrom::Start(0));
    client_encode_all(cd, bufs)
}
pub open spec fn counted(counts: Seq<usize>, c: int, n: int) -> int decreases n { if n <= 0 { 0 } else { counted(counts, c, n - 1) + counts[n - 1] as int / c } }
/// decoding into buffers of any sizes, one after the other
#[verifier::spinoff_prover]
pub fn client_decode_all(cd: &mut AdhocCodec, sizes: &Vec<usize>, xs: Ghost<Seq<Seq<i16>>>, m: Ghost<int>) -> (r: (Vec<Vec<f32>>, Vec<usize>))
    requires old(cd).dec_ok(xs@, m@), 0 <= m@
    ensures
        r.0@.len() == sizes@.len(), r.1@.len() == sizes@.len(),
        forall|i: int| 0 <= i < sizes@.len() ==> ({
            let c = old(cd).c(); let s = m@ + counted(r.1@, c, i); let l = sizes@[i] as int / c; let k = if l < xs@[0].len() - s { l } else { xs@[0].len() - s };
            &&& (#[trigger] r.0@[i])@.len() == sizes@[i]
            &&& r.1@[i] == k * c
            &&& forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] r.0@[i]@[t * c + j] == fmul(nz(#[trigger] xs@[j][s + t]), old(cd).scale)
            &&& forall|q: int| k * c <= q < sizes@[i] ==> #[trigger] r.0@[i]@[q] == 0.0f32
        }),
        final(cd).dec_ok(xs@, m@ + counted(r.1@, old(cd).c(), sizes@.len() as int)),
{
    let ghost c = cd.c();
    let mut outs: Vec<Vec<f32>> = Vec::new();
    let mut counts: Vec<usize> = Vec::new();
    let mut i: usize = 0;
    while i < sizes.len()
        invariant
            0 <= i <= sizes@.len(), c == cd.c(), c >= 1, c == old(cd).c(), cd.same_setup(old(cd)), outs@.len() == i, counts@.len() == i,
            cd.dec_ok(xs@, m@ + counted(counts@, c, i as int)),
            forall|q: int| 0 <= q < i ==> piece((#[trigger] outs@[q])@, counts@[q] as int, sizes@[q] as int, xs@, m@ + counted(counts@, c, q), c, old(cd).scale),
        decreases sizes@.len() - i
    {
        let mut buf: Vec<f32> = Vec::new();
        buf.resize(sizes[i], 0.0);
        let ghost counts0 = counts@;
        let r = cd.stream_decode(&mut buf);
        let n = match r { Some(n) => n, None => 0 };
        counts.push(n);
        outs.push(buf);
        proof {
            assert forall|q: int| 0 <= q <= i implies counted(counts@, c, q) == counted(counts0, c, q) by { lemma_counted(counts0, counts@, c, q); }
            assert(counted(counts@, c, i + 1) == counted(counts@, c, i as int) + n as int / c);
            let s = m@ + counted(counts0, c, i as int); let l = sizes@[i as int] as int / c; let k = if l < xs@[0].len() - s { l } else { xs@[0].len() - s };
            assert(n == k * c);
            assert(c * k == k * c) by (nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, c);
        }
        i += 1;
    }
    (outs, counts)
}
pub open spec fn piece(out: Seq<f32>, count: int, size: int, xs: Seq<Seq<i16>>, s: int, c: int, scale: f32) -> bool {
    let l = size / c; let k = if l < xs[0].len() - s { l } else { xs[0].len() - s };
    &&& out.len() == size
    &&& count == k * c
    &&& forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] out[t * c + j] == fmul(nz(#[trigger] xs[j][s + t]), scale)
    &&& forall|q: int| k * c <= q < size ==> #[trigger] out[q] == 0.0f32
}
pub proof fn lemma_counted(a: Seq<usize>, b: Seq<usize>, c: int, q: int)
    requires 0 <= q <= a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[i]
    ensures counted(a, c, q) == counted(b, c, q)
    decreases q
{ if q > 0 { lemma_counted(a, b, c, q - 1); assert(a[q - 1] == b[q - 1]); } }
/// any number of seeks and decode calls in any order leaves the recording what it was
pub fn client_history(cd: &mut AdhocCodec, ops: &Vec<(bool, u64, usize)>, xs: Ghost<Seq<Seq<i16>>>, m: Ghost<int>) -> (r: Ghost<int>)
    requires old(cd).full(xs@), old(cd).dec_ok(xs@, m@)
    ensures final(cd).full(xs@), final(cd).dec_ok(xs@, r@), final(cd).same_setup(old(cd)), final(cd).frame_header_list.is_init_frame_list == old(cd).frame_header_list.is_init_frame_list
{
    let ghost mut at = m@;
    let mut i: usize = 0;
    while i < ops.len()
        invariant 0 <= i <= ops@.len(), cd.full(xs@), cd.dec_ok(xs@, at), cd.same_setup(old(cd)), cd.frame_header_list.is_init_frame_list == old(cd).frame_header_list.is_init_frame_list,
        decreases ops@.len() - i
    {
        let n = cd.calculate_sample_count_per_channel();
        assert(n == xs@[0].len());
        if ops[i].0 {
            cd.seek(SeekFrom::Start(ops[i].1));
            proof {
                let o = if ops@[i as int].1 == 0 { 0 } else { set_at(old(cd).stream.info->0.sample_rate, ops@[i as int].1) as int };
                at = if o < xs@[0].len() { o } else { xs@[0].len() as int };
            }
        } else {
            let mut buf: Vec<f32> = Vec::new();
            buf.resize(ops[i].2, 0.0);
            let r = cd.stream_decode(&mut buf);
            proof { let l = ops@[i as int].2 as int / cd.c(); at = at + if l < xs@[0].len() - at { l } else { xs@[0].len() - at }; }
        }
        i += 1;
    }
    Ghost(at)
}
/// samples s .. s + k of every channel, scaled
pub open spec fn delivered(out: Seq<f32>, xs: Seq<Seq<i16>>, s: int, k: int, c: int, scale: f32) -> bool {
    forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] out[t * c + j] == fmul(nz(#[trigger] xs[j][s + t]), scale)
}
/// a seek after any history, and what is decoded then
#[verifier::spinoff_prover]
pub fn client_seek(cd: &mut AdhocCodec, ops: &Vec<(bool, u64, usize)>, ms: u64, size: usize, xs: Ghost<Seq<Seq<i16>>>, m: Ghost<int>) -> (r: (Vec<f32>, Option<usize>))
    requires old(cd).full(xs@), old(cd).dec_ok(xs@, m@)
    ensures ({
        let c = old(cd).c(); let n = xs@[0].len() as int;
        let o = if ms == 0 { 0 } else { set_at(old(cd).stream.info->0.sample_rate, ms) as int };
        let s = if o < n { o } else { n };
        let l = size as int / c; let k = if l < n - s { l } else { n - s };
        &&& (r.1 is None) == (k == 0) && (r.1 is Some ==> r.1->0 == k * c)
        &&& r.0@.len() == size
        &&& delivered(r.0@, xs@, s, k, c, old(cd).scale)
    }),
{
    let h = client_history(cd, ops, xs, m);
    cd.seek(SeekFrom::Start(ms));
    let mut buf: Vec<f32> = Vec::new();
    buf.resize(size, 0.0);
    let r = cd.stream_decode(&mut buf);
    (buf, r)
}
/// the number of samples a recording reports
pub fn client_count(info: StreamInfo, level: u32, bufs: &Vec<Vec<f32>>, ops: &Vec<(bool, u64, usize)>) -> (r: u64)
    requires info.channels >= 1, room_for(bufs@, info.channels as int, 0)
    ensures r == nsets(bufs@, info.channels as int, bufs@.len() as int)
{
    let (mut cd, xs) = client_record(info, level, bufs);
    let h = client_history(&mut cd, ops, xs, Ghost(0));
    cd.calculate_sample_count_per_channel()
}
/* ---- values ---- */
/// Kani: leaf_level0_identity, leaf_scale_one
#[verifier::external_body]
pub proof fn axiom_level0(s: f32, noise: f32, v: i16)
    requires unit(noise)
    ensures tq(dith(s, noise, fdiv(1.0f32, scale_of(0)))) == tq(s), v >= -32767 ==> fmul(nz(v), scale_of(0)) == nz(v)
{}
/// -1 <= s <= 1
pub uninterp spec fn in_unit(s: f32) -> bool;
/// |d - s| <= 2^level / 32767 + 0.001, up to single-precision rounding
pub uninterp spec fn within_level(d: f32, s: f32, level: u32) -> bool;
/// Kani: leaf_noise_unit, leaf_dither_small, leaf_lossy_l01 to leaf_lossy_l10 (level 0: leaf_level0_identity)
#[verifier::external_body]
pub proof fn axiom_lossy(s: f32, noise: f32, level: u32)
    requires unit(noise), in_unit(s), 1 <= level <= 10
    ensures within_level(fmul(nz(tq(dith(s, noise, fdiv(1.0f32, scale_of(level))))), scale_of(level)), s, level)
{}
/// level 0: exactly the 16-bit values of what was encoded come back
#[verifier::spinoff_prover]
pub fn client_lossless(info: StreamInfo, bufs: &Vec<Vec<f32>>, sizes: &Vec<usize>) -> (r: (Vec<Vec<f32>>, Vec<usize>))
    requires info.channels >= 1, room_for(bufs@, info.channels as int, 0)
    ensures
        r.0@.len() == sizes@.len(), r.1@.len() == sizes@.len(),
        forall|i: int| 0 <= i < sizes@.len() ==> ({
            let c = info.channels as int; let pcm = sets(bufs@, c, bufs@.len() as int); let n = nsets(bufs@, c, bufs@.len() as int);
            let s = counted(r.1@, c, i); let l = sizes@[i] as int / c; let k = if l < n - s { l } else { n - s };
            &&& (#[trigger] r.0@[i])@.len() == sizes@[i]
            &&& r.1@[i] == k * c
            &&& forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] r.0@[i]@[t * c + j] == nz(tq(pcm[(s + t) * c + j]))
        }),
{
    let (mut cd, xs) = client_record(info, 0, bufs);
    let r = client_decode_all(&mut cd, sizes, xs, Ghost(0));
    proof {
        let c = info.channels as int; let pcm = sets(bufs@, c, bufs@.len() as int); let n = nsets(bufs@, c, bufs@.len() as int); let inv = fdiv(1.0f32, scale_of(0));
        assert(xs@[0].len() == n);
        lemma_counted_pos(r.1@, c, sizes@.len() as int);
        assert forall|j: int, t: int| 0 <= j < c && 0 <= t < n implies fmul(nz(#[trigger] xs@[j][t]), scale_of(0)) == nz(tq(pcm[t * c + j])) by {
            assert(qrel(inv, pcm[t * c + j], xs@[j][t]));
            let d = choose|d: f32| #[trigger] dithered(pcm[t * c + j], d, inv) && xs@[j][t] == tq(d);
            let noise = choose|noise: f32| unit(noise) && d == #[trigger] dith(pcm[t * c + j], noise, inv);
            axiom_level0(pcm[t * c + j], noise, xs@[j][t]);
            axiom_tq_range(d);
        }
        assert forall|i: int| 0 <= i < sizes@.len() implies 0 <= #[trigger] counted(r.1@, c, i) by { lemma_counted_pos(r.1@, c, i); }
        assert forall|i: int, t: int, j: int| 0 <= i < sizes@.len() && 0 <= j < c && 0 <= t && counted(r.1@, c, i) + t < n && t < sizes@[i] as int / c implies #[trigger] r.0@[i]@[t * c + j] == nz(tq(pcm[(counted(r.1@, c, i) + t) * c + j])) by {
            let s = counted(r.1@, c, i);
            assert(r.0@[i]@.len() == sizes@[i]);
            assert(fmul(nz(xs@[j][0 + s + t]), scale_of(0)) == nz(tq(pcm[(s + t) * c + j])));
        }
    }
    r
}
pub proof fn lemma_counted_pos(a: Seq<usize>, c: int, q: int)
    requires 0 <= q <= a.len(), c >= 1
    ensures counted(a, c, q) >= 0
    decreases q
{ if q > 0 { lemma_counted_pos(a, c, q - 1); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a[q - 1] as int, c); } }
/// levels 1 to 10: what comes back is near what was encoded
#[verifier::spinoff_prover]
pub fn client_lossy(info: StreamInfo, level: u32, bufs: &Vec<Vec<f32>>, sizes: &Vec<usize>) -> (r: (Vec<Vec<f32>>, Vec<usize>))
    requires info.channels >= 1, room_for(bufs@, info.channels as int, 0), 1 <= level <= 10
    ensures
        r.0@.len() == sizes@.len(), r.1@.len() == sizes@.len(),
        forall|i: int| 0 <= i < sizes@.len() ==> ({
            let c = info.channels as int; let pcm = sets(bufs@, c, bufs@.len() as int); let n = nsets(bufs@, c, bufs@.len() as int);
            let s = counted(r.1@, c, i); let l = sizes@[i] as int / c; let k = if l < n - s { l } else { n - s };
            &&& (#[trigger] r.0@[i])@.len() == sizes@[i]
            &&& r.1@[i] == k * c
            &&& forall|t: int, j: int| 0 <= t < k && 0 <= j < c && in_unit(pcm[(s + t) * c + j]) ==> within_level(#[trigger] r.0@[i]@[t * c + j], pcm[(s + t) * c + j], level)
        }),
{
    let (mut cd, xs) = client_record(info, level, bufs);
    let r = client_decode_all(&mut cd, sizes, xs, Ghost(0));
    proof {
        let c = info.channels as int; let pcm = sets(bufs@, c, bufs@.len() as int); let n = nsets(bufs@, c, bufs@.len() as int); let inv = fdiv(1.0f32, scale_of(level));
        assert(xs@[0].len() == n);
        assert forall|j: int, t: int| 0 <= j < c && 0 <= t < n && in_unit(pcm[t * c + j]) implies within_level(fmul(nz(#[trigger] xs@[j][t]), scale_of(level)), pcm[t * c + j], level) by {
            assert(qrel(inv, pcm[t * c + j], xs@[j][t]));
            let d = choose|d: f32| #[trigger] dithered(pcm[t * c + j], d, inv) && xs@[j][t] == tq(d);
            let noise = choose|noise: f32| unit(noise) && d == #[trigger] dith(pcm[t * c + j], noise, inv);
            axiom_lossy(pcm[t * c + j], noise, level);
        }
        assert forall|i: int| 0 <= i < sizes@.len() implies 0 <= #[trigger] counted(r.1@, c, i) by { lemma_counted_pos(r.1@, c, i); }
        assert forall|i: int, t: int, j: int| 0 <= i < sizes@.len() && 0 <= j < c && 0 <= t && counted(r.1@, c, i) + t < n && t < sizes@[i] as int / c && in_unit(pcm[(counted(r.1@, c, i) + t) * c + j]) implies within_level(#[trigger] r.0@[i]@[t * c + j], pcm[(counted(r.1@, c, i) + t) * c + j], level) by {
            let s = counted(r.1@, c, i);
            assert(r.0@[i]@.len() == sizes@[i]);
            assert(within_level(fmul(nz(xs@[j][0 + s + t]), scale_of(level)), pcm[(s + t) * c + j], level));
        }
    }
    r
}
