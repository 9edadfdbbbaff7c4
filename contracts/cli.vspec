// The conversions of the command line tool. Files are named by what they hold and what they are left with.
//@ file src/codec/wav.rs
//@ fn WavCodec as Streamable::info
//@ rename stream_info
//@ ret r
//@ spec
    ensures r == self.info
//@ file src/main.rs
//@ global
#[verifier::external_body]
pub struct Path { x: () }
#[verifier::external_body]
pub struct PathBuf { x: () }
#[verifier::external_body]
pub struct OsStr { x: () }
#[verifier::external_body]
pub struct OsString { x: () }
pub struct VxFsError { pub x: () }
/// names: what they spell
pub trait VxName { spec fn name(&self) -> Seq<char>; }
pub uninterp spec fn path_name(p: Path) -> Seq<char>;
pub uninterp spec fn buf_name(p: PathBuf) -> Seq<char>;
pub uninterp spec fn os_name(p: OsStr) -> Seq<char>;
pub uninterp spec fn string_name(p: OsString) -> Seq<char>;
impl VxName for Path { open spec fn name(&self) -> Seq<char> { path_name(*self) } }
impl VxName for PathBuf { open spec fn name(&self) -> Seq<char> { buf_name(*self) } }
impl VxName for OsStr { open spec fn name(&self) -> Seq<char> { os_name(*self) } }
impl VxName for OsString { open spec fn name(&self) -> Seq<char> { string_name(*self) } }
impl VxName for str { open spec fn name(&self) -> Seq<char> { self@ } }
impl<T: VxName + ?Sized> VxName for &T { open spec fn name(&self) -> Seq<char> { (**self).name() } }
/// std::path: the name of a file without what follows its last dot, what follows it, a file in a directory
pub uninterp spec fn stem_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn ext_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn joined(dir: Seq<char>, name: Seq<char>) -> Seq<char>;
pub uninterp spec fn with_ext(p: Seq<char>, ext: Seq<char>) -> Seq<char>;
/// a name is text
pub uninterp spec fn utf8(p: Seq<char>) -> bool;
impl Path {
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures r is Some == stem_of(self.name()) is Some, r is Some ==> r->0.name() == stem_of(self.name())->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures r is Some == ext_of(self.name()) is Some, r is Some ==> r->0.name() == ext_of(self.name())->0 && (utf8(self.name()) ==> utf8(r->0.name())) { unimplemented!() }
    #[verifier::external_body]
    pub fn join<S: VxName>(&self, s: S) -> (r: PathBuf) ensures r.name() == joined(self.name(), s.name()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self.name(), utf8(self.name()) ==> r is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.name() == self.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension<S: VxName>(&self, s: S) -> (r: PathBuf) ensures r.name() == with_ext(self.name(), s.name()) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn from<S: VxName>(s: S) -> (r: PathBuf) ensures r.name() == s.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn push<S: VxName>(&mut self, s: S) ensures final(self).name() == joined(old(self).name(), s.name()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension<S: VxName>(&mut self, s: S) -> (r: bool) ensures final(self).name() == with_ext(old(self).name(), s.name()) { unimplemented!() }
}
impl OsStr {
    #[verifier::external_body]
    pub fn to_os_string(&self) -> (r: OsString) ensures r.name() == self.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self.name(), utf8(self.name()) ==> r is Some { unimplemented!() }
}
impl OsString {
    #[verifier::external_body]
    pub fn push<S: VxName>(&mut self, s: S) ensures final(self).name() == old(self).name() + s.name() { unimplemented!() }
}
/// what a file holds that is read, whether it can be read; whether a file can be made and takes what is written to it
pub uninterp spec fn on_disk(p: Seq<char>) -> Seq<u8>;
pub uninterp spec fn readable(p: Seq<char>) -> bool;
pub uninterp spec fn creatable(p: Seq<char>) -> bool;
/// a file of this name has been made and left with these bytes
pub uninterp spec fn left(p: Seq<char>, b: Seq<u8>) -> bool;
pub trait VxOpened: Sized { spec fn opened(self, p: Seq<char>) -> bool; }
impl VxOpened for VxIn { open spec fn opened(self, p: Seq<char>) -> bool { self.content() == on_disk(p) && self.pos() == 0 && (readable(p) ==> self.ok()) } }
impl VxOpened for VxSource { open spec fn opened(self, p: Seq<char>) -> bool { content(self) == on_disk(p) } }
pub trait VxMade: Sized { #[verifier::prophetic] spec fn made(self, p: Seq<char>) -> bool; }
impl VxMade for VxSink { #[verifier::prophetic] open spec fn made(self, p: Seq<char>) -> bool { (forall|b: Seq<u8>| #[trigger] wrote(self, b) ==> left(p, b)) && (creatable(p) ==> accepts(self)) } }
impl<'a> VxMade for &'a mut VxOut { #[verifier::prophetic] open spec fn made(self, p: Seq<char>) -> bool { self.text().len() == 0 && (creatable(p) ==> self.takes()) && left(p, final(self).text()) } }
pub struct File {}
impl File {
    #[verifier::external_body]
    pub fn open<P: VxName, T: VxOpened>(p: P) -> (r: Result<T, VxFsError>) ensures r is Ok ==> r->Ok_0.opened(p.name()), readable(p.name()) ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: VxName, T: VxMade>(p: P) -> (r: Result<T, VxFsError>) ensures r is Ok ==> r->Ok_0.made(p.name()), creatable(p.name()) ==> r is Ok { unimplemented!() }
}
/// under the same name, next to the directory given
pub open spec fn dest(input: Seq<char>, dir: Seq<char>, ext: Seq<char>) -> Seq<char> { joined(dir, stem_of(input)->0 + ext) }
/// samples as floats
pub open spec fn heard(s: Seq<i16>) -> Seq<f32> { Seq::new(s.len(), |i: int| nz(s[i])) }
/// n sets of a recording, interleaved
pub open spec fn woven(xs: Seq<Seq<i16>>, c: int, n: int, scale: f32) -> Seq<f32> { Seq::new((n * c) as nat, |i: int| fmul(nz(xs[i % c][i / c]), scale)) }
/// the samples of a WAV file
pub open spec fn wav_says(b: Seq<u8>, d: int) -> Seq<i16> { whole(sampled(data_of(b, d), at2(b, 34) as int), at2(b, 22) as int) }
/// a recording of what the WAV file b says, at this level
pub open spec fn recorded(cd: AdhocCodec, xs: Seq<Seq<i16>>, b: Seq<u8>, d: int, level: u32) -> bool {
    &&& wav_ok(b, d) && sound(cd, xs)
    &&& cd.stream.info == Some(StreamInfo { sample_rate: at4(b, 24), channels: at2(b, 22) as u32 })
    &&& cd.compression_level == (if level > 10 { 10 } else { level })
    &&& coded(heard(wav_says(b, d)), xs, cd.c(), wav_says(b, d).len() as int / cd.c(), cd.inv_scale)
}
/// a codec with a whole recording
pub open spec fn sound(cd: AdhocCodec, xs: Seq<Seq<i16>>) -> bool { cd.full(xs) && cd.lvl_ok() && cd.frame_header_list.wf() && cd.c() <= 0xffff && cd.stream.stream.nbits() <= SILENT() }
/// the bytes of an ADHOC file that can be kept as a WAV file
pub open spec fn recording(b: Seq<u8>, cd: AdhocCodec, xs: Seq<Seq<i16>>) -> bool {
    &&& sound(cd, xs) && b == enc_fields(stored(cd)) && b.len() <= 0x80_0000_0000_0000
    &&& cd.c() <= 0x7fff && 2 * (cd.stream.info->0.sample_rate * cd.c()) <= 0xffff_ffff && 2 * (xs[0].len() * cd.c()) <= 0xffff_ffff - 36
}
/// a WAV file of what the recording gives
pub open spec fn played_as(p: Seq<char>, cd: AdhocCodec, xs: Seq<Seq<i16>>) -> bool {
    exists|pcm: Seq<u8>| left(p, canonical(cd.stream.info->0.sample_rate as int, cd.c(), pcm.len() as int) + pcm) && pcm.len() == 2 * (xs[0].len() * cd.c()) && #[trigger] samples(pcm) == quantised(woven(xs, cd.c(), xs[0].len() as int, cd.scale))
}
pub open spec fn recorded_as(p: Seq<char>, b: Seq<u8>, d: int, level: u32) -> bool {
    exists|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recorded(cd, xs, b, d, level) && (creatable(p) ==> left(p, enc_fields(stored(cd))))
}
/// k more samples behind p of them, whole sets of c
pub proof fn lemma_part(p: int, k: int, c: int)
    requires c >= 1, k >= 1, p >= 0, (p + k) % c == 0, p % c == 0
    ensures k % c == 0, (p / c) * c == p, (k / c) * c == k, (p + k) / c == p / c + k / c, k / c >= 1, (k / c / 65535 + 1) * c <= k
{
    lemma_multiples(p + k, p, c);
    lemma_multiples(p, k, c);
    lemma_multiples(k, 0, c);
    let a = p / c; let n = k / c;
    assert(p + k == (a + n) * c) by (nonlinear_arith) requires p == a * c, k == n * c;
    vstd::arithmetic::div_mod::lemma_div_by_multiple(a + n, c);
    assert(n >= 1) by (nonlinear_arith) requires n * c >= 1, c >= 1;
    let h = n / 65535;
    assert(h + 1 <= n);
    assert((h + 1) * c <= n * c) by (nonlinear_arith) requires h + 1 <= n, c >= 1;
}
/// a file has no more samples than bytes
pub proof fn lemma_says(b: Seq<u8>, d: int)
    requires wav_ok(b, d)
    ensures wav_says(b, d).len() <= b.len()
{
    let raw = data_of(b, d);
    let n = sampled(raw, at2(b, 34) as int).len() as int;
    lemma_whole_sets2(n, at2(b, 22) as int);
}
//@ fn convert_wav_to_adhoc
//@ ret r
//@ opt methods encode=stream_encode decode=stream_decode info=stream_info
//@ spec
    requires on_disk(input.name()).len() < 0x8000_0000
    ensures
        r is Some ==> stem_of(input.name()) is Some && exists|d: int| #[trigger] recorded_as(dest(input.name(), output_dir.name(), ".adhoc"@), on_disk(input.name()), d, compression_level),
        forall|d: int| #[trigger] wav_ok(on_disk(input.name()), d) && stem_of(input.name()) is Some && readable(input.name()) && creatable(dest(input.name(), output_dir.name(), ".adhoc"@)) ==> r is Some,
//@ entry
    let ghost b = on_disk(input.name());
//@ loop 0 before
    let ghost d = choose|d: int| #[trigger] wav_ok(b, d);
    let ghost s = wav_says(b, d);
    let ghost c = at2(b, 22) as int;
    let ghost mut xs = none(c);
    let ghost inv = compressed_wav.inv_scale;
    proof {
        lemma_start_enc(compressed_wav);
        lemma_says(b, d);
        assert(0int / c == 0) by { vstd::arithmetic::div_mod::lemma_div_by_multiple(0, c); }
        assert(s =~= parsed_wav.smp());
        assert(buffer@.len() as int / c >= 1) by { vstd::arithmetic::div_mod::lemma_div_is_ordered(c, buffer@.len() as int, c); vstd::arithmetic::div_mod::lemma_div_by_self(c); }
        assert((buffer@.len() as int / c) * c >= 1) by (nonlinear_arith) requires buffer@.len() as int / c >= 1, c >= 1;
    }
//@ loop 0
    invariant
        wav_ok(b, d), s == wav_says(b, d), c == at2(b, 22), 1 <= c <= 0x7fff, s.len() < 0x8000_0000, s.len() as int % c == 0,
        parsed_wav.wf(), parsed_wav.smp() == s, parsed_wav.ch() == c, (buffer@.len() as int / c) * c >= 1,
        compressed_wav.enc_ok(xs), compressed_wav.c() == c, compressed_wav.inv_scale == inv, compressed_wav.lvl_ok(), xs.len() == c,
        compressed_wav.stream.info == Some(StreamInfo { sample_rate: at4(b, 24), channels: at2(b, 22) as u32 }),
        compressed_wav.compression_level == (if compression_level > 10 { 10 } else { compression_level }),
        coded(heard(s).take(parsed_wav.at()), xs, c, parsed_wav.at() / c, inv),
        compressed_wav.stream.stream.pos() <= 18 * parsed_wav.at(),
        compressed_wav.stream.stream.nbits() <= SILENT(),
        compressed_wav.frame_header_list.cur() <= parsed_wav.at(), compressed_wav.frame_header_list.n() == compressed_wav.frame_header_list.cur(), compressed_wav.frame_header_list.wf(),
    ensures
        parsed_wav.at() == s.len(),
    decreases s.len() - parsed_wav.at()
//@ loop 0 begin
    let ghost before = compressed_wav;
    let ghost k = samples_read as int;
    let ghost p0 = parsed_wav.at() - k;
    proof {
        lemma_whole_sets2(buffer@.len() as int, c);
        lemma_multiples(parsed_wav.at(), 0, c);
        lemma_multiples(s.len() as int, parsed_wav.at(), c);
        lemma_part(p0, k, c);
    }
//@ loop 0 end
    proof {
        let a = heard(s).take(p0); let e = buffer@.subrange(0, k);
        let v = choose|v: Seq<Seq<i16>>| #[trigger] coded(e, v, c, k / c, inv) && forall|xs: Seq<Seq<i16>>| #[trigger] before.enc_ok(xs) ==> compressed_wav.enc_ok(app(xs, v, c));
        assert(a + e =~= heard(s).take(p0 + k));
        lemma_coded_cat(a, xs, p0 / c, e, v, k / c, c, inv);
        xs = app(xs, v, c);
    }
//@ loop 0 after
    proof {
        assert(heard(s).take(s.len() as int) =~= heard(s));
        lemma_enc_full(compressed_wav, xs);
        assert(recorded(compressed_wav, xs, b, d, compression_level));
    }
//@ exit
    proof {
        if __vx_r is Some { assert(recorded_as(dest(input.name(), output_dir.name(), ".adhoc"@), b, d, compression_level)); }
    }
//@ global
/// a loaded codec is the one that was saved
pub proof fn lemma_reloaded(cd: AdhocCodec, a: AdhocCodec, xs: Seq<Seq<i16>>)
    requires sound(cd, xs), a.seekable(), a.dec_safe(), a.lvl_ok(), at_start(a), loaded(a, stored(cd))
    ensures a.full(xs), a.dec_ok(xs, 0), a.scale == cd.scale, a.c() == cd.c(), a.stream.info == cd.stream.info
{
    assert(a.frame_header_list@ =~= a.hs());
    assert(cd.frame_header_list@ =~= cd.hs());
    lemma_start_dec(a, xs);
}
pub proof fn lemma_storable(cd: AdhocCodec, xs: Seq<Seq<i16>>)
    requires sound(cd, xs)
    ensures storable(stored(cd))
{
    let k = stored(cd);
    assert forall|i: int| 0 <= i < k.1.bit_cursor_list@.len() implies #[trigger] k.1.bit_cursor_list@[i] <= k.2.stream.nbits() by {
        assert(cd.frame_header_list@[i].bit_cursor <= cd.stream.stream.nbits());
    }
}
/// m sets have been decoded and written down
pub open spec fn playing(src: AdhocCodec, dst: WavCodec, cd: AdhocCodec, xs: Seq<Seq<i16>>, m: int) -> bool {
    let c = cd.c();
    &&& src.dec_ok(xs, m) && src.c() == c && src.scale == cd.scale && src.stream.info == cd.stream.info && xs.len() == c
    &&& 0 <= m <= xs[0].len()
    &&& dst.smp() == quantised(woven(xs, c, m, cd.scale)) && dst.at() == m * c && dst.info == cd.stream.info->0
}
/// k sets more
pub proof fn lemma_woven(xs: Seq<Seq<i16>>, c: int, m: int, k: int, scale: f32, part: Seq<f32>)
    requires c >= 1, m >= 0, k >= 0, part.len() == k * c, forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] part[t * c + j] == fmul(nz(#[trigger] xs[j][m + t]), scale)
    ensures woven(xs, c, m + k, scale) =~= woven(xs, c, m, scale) + part, quantised(woven(xs, c, m + k, scale)) =~= quantised(woven(xs, c, m, scale)) + quantised(part), woven(xs, c, m, scale).len() == m * c, m * c >= 0, (m + k) * c == m * c + k * c
{
    assert((m + k) * c == m * c + k * c && m * c >= 0 && k * c >= 0) by (nonlinear_arith) requires m >= 0, k >= 0, c >= 1;
    let w = woven(xs, c, m + k, scale);
    assert forall|i: int| m * c <= i < (m + k) * c implies #[trigger] w[i] == part[i - m * c] by {
        let q = i - m * c; let t = q / c; let j = q % c;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, c);
        assert(q == t * c + j) by (nonlinear_arith) requires q == c * t + j;
        assert(t < k) by (nonlinear_arith) requires t * c + j < k * c, j >= 0, c >= 1;
        assert(t >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(q, c); }
        assert(i == (m + t) * c + j) by (nonlinear_arith) requires i == m * c + (t * c + j);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, c, m + t, j);
        assert(part[t * c + j] == fmul(nz(xs[j][m + t]), scale));
    }
}
//@ fn convert_adhoc_to_wav
//@ ret r
//@ opt methods encode=stream_encode decode=stream_decode info=stream_info
//@ spec
    requires exists|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(on_disk(input.name()), cd, xs)
    ensures
        r is Some ==> stem_of(input.name()) is Some,
        forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(on_disk(input.name()), cd, xs) ==> {
            &&& r is Some ==> played_as(dest(input.name(), output_dir.name(), ".wav"@), cd, xs)
            &&& stem_of(input.name()) is Some && readable(input.name()) && creatable(dest(input.name(), output_dir.name(), ".wav"@)) ==> r is Some
        }
//@ entry
    let ghost b = on_disk(input.name());
    let ghost (cd0, xs0) = choose|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs);
    let ghost c = cd0.c();
    let ghost mut m = 0int;
    proof {
        assert forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs) implies storable(stored(cd)) by { lemma_storable(cd, xs); }
    }
//@ loop 0 before
    proof {
        assert(0 * c == 0);
        assert(buffer@.len() as int / c >= 1) by { vstd::arithmetic::div_mod::lemma_div_is_ordered(c, buffer@.len() as int, c); vstd::arithmetic::div_mod::lemma_div_by_self(c); }
        assert forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs) implies playing(src_adhoc, dst_wav, cd, xs, 0) by {
            lemma_reloaded(cd, src_adhoc, xs);
            assert(woven(xs, c, 0, cd.scale) =~= Seq::<f32>::empty());
            assert(quantised(woven(xs, c, 0, cd.scale)) =~= Seq::<i16>::empty());
        }
    }
//@ loop 0
    invariant
        recording(b, cd0, xs0), c == cd0.c(), c >= 1, buffer@.len() as int / c >= 1, src_adhoc.dec_safe(), src_adhoc.c() == c, dst_wav.wf(), 0 <= m <= xs0[0].len(),
        forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs) ==> playing(src_adhoc, dst_wav, cd, xs, m),
    ensures
        forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs) ==> m == xs[0].len(),
    decreases xs0[0].len() - m
//@ loop 0 begin
    let ghost k = samples_read as int / c;
    let ghost before = dst_wav;
    let ghost part = buffer@.subrange(0, samples_read as int);
    proof {
        lemma_multiples(samples_read as int, 0, c);
        assert forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs) implies src_adhoc.dec_ok(xs, m + k) && m + k <= xs[0].len() && src_adhoc.scale == cd.scale
            && (forall|t: int, j: int| 0 <= t < k && 0 <= j < c ==> #[trigger] part[t * c + j] == fmul(nz(#[trigger] xs[j][m + t]), cd.scale)) by {
            assert(before.smp() == quantised(woven(xs, c, m, cd.scale)));
            let kk = if buffer@.len() as int / c < xs[0].len() - m { buffer@.len() as int / c } else { xs[0].len() - m };
            assert(kk * c == samples_read);
            assert(kk == k) by { vstd::arithmetic::div_mod::lemma_div_by_multiple(kk, c); }
            assert forall|t: int, j: int| 0 <= t < k && 0 <= j < c implies #[trigger] part[t * c + j] == fmul(nz(#[trigger] xs[j][m + t]), cd.scale) by {
                lemma_cell(t, k, j, c);
                assert(buffer@[t * c + j] == fmul(nz(xs[j][m + t]), cd.scale));
            }
        }
        assert(k >= 1) by (nonlinear_arith) requires k * c >= 1, c >= 1;
        let all = xs0[0].len() as int;
        assert(before.smp().len() == m * c);
        assert((m + k) * c <= all * c && (m + k) * c == m * c + k * c) by (nonlinear_arith) requires m + k <= all, c >= 1;
    }
//@ loop 0 end
    proof {
        assert(part.take(samples_read as int) =~= part);
        assert forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs) implies playing(src_adhoc, dst_wav, cd, xs, m + k) by {
            assert(before.smp() == quantised(woven(xs, c, m, cd.scale)));
            lemma_woven(xs, c, m, k, cd.scale, part);
            assert(dst_wav.smp() =~= quantised(woven(xs, c, m + k, cd.scale)));
        }
        m = m + k;
    }
//@ loop 0 after
    proof {
        assert forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs) implies m == xs[0].len() && dst_wav.pcm@.len() == 2 * (xs[0].len() * c) && cd.c() == c by {
            assert(playing(src_adhoc, dst_wav, cd, xs, m));
        }
    }
//@ exit
    proof {
        let p = dest(input.name(), output_dir.name(), ".wav"@);
        assert forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(b, cd, xs) && __vx_r is Some implies played_as(p, cd, xs) by {
            assert(playing(src_adhoc, dst_wav, cd, xs, m));
            let h = canonical(cd.stream.info->0.sample_rate as int, cd.c(), dst_wav.pcm@.len() as int);
            assert(Seq::<u8>::empty() + h + dst_wav.pcm@ =~= h + dst_wav.pcm@);
            assert(samples(dst_wav.pcm@) == quantised(woven(xs, cd.c(), xs[0].len() as int, cd.scale)));
        }
    }
//@ global
/// part of a string
pub open spec fn in_it(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i && i + t.len() <= s.len() && #[trigger] s.subrange(i, i + t.len()) == t }
pub trait VxContains { fn vx_contains(&self, t: &str) -> (r: bool); }
impl VxContains for str {
    #[verifier::external_body]
    fn vx_contains(&self, t: &str) -> (r: bool) ensures r == in_it(self@, t@) { unimplemented!() }
}
pub open spec fn called(p: Seq<char>, e: Seq<char>) -> bool { ext_of(p) == Some(e) }
pub open spec fn kind(p: Seq<char>, e: Seq<char>) -> bool { ext_of(p) is Some && in_it(ext_of(p)->0, e) }
/// what the ends of file names say
pub proof fn lemma_kinds()
    ensures in_it("wav"@, "wav"@), in_it("adhoc"@, "adhoc"@), !in_it("wav"@, "adhoc"@), !in_it("adhoc"@, "wav"@)
{
    reveal_strlit("wav"); reveal_strlit("adhoc");
    let w = "wav"@; let a = "adhoc"@;
    assert(w.len() == 3 && w.subrange(0, 0 + w.len() as int) =~= w);
    assert(a.len() == 5 && a.subrange(0, 0 + a.len() as int) =~= a);
    assert forall|i: int| 0 <= i && i + 3 <= a.len() implies #[trigger] a.subrange(i, i + 3) != w by {
        assert(a.subrange(i, i + 3)[0] == a[i] && a.subrange(i, i + 3)[1] == a[i + 1]);
        assert(i == 0 || i == 1 || i == 2);
        assert(w[0] == 'w');
    }
}
//@ fn convert_file
//@ ret r
//@ opt methods contains=vx_contains
//@ spec
    requires
        kind(input.name(), "wav"@) ==> on_disk(input.name()).len() < 0x8000_0000,
        kind(input.name(), "adhoc"@) ==> exists|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(on_disk(input.name()), cd, xs)
    ensures
        called(input.name(), "wav"@) ==> {
            let p = dest(input.name(), output_dir.name(), ".adhoc"@);
            &&& r is Some ==> exists|d: int| #[trigger] recorded_as(p, on_disk(input.name()), d, compression_level)
            &&& forall|d: int| #[trigger] wav_ok(on_disk(input.name()), d) && stem_of(input.name()) is Some && readable(input.name()) && creatable(p) && utf8(input.name()) ==> r is Some
        },
        called(input.name(), "adhoc"@) ==> forall|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recording(on_disk(input.name()), cd, xs) ==> {
            let p = dest(input.name(), output_dir.name(), ".wav"@);
            &&& r is Some ==> played_as(p, cd, xs)
            &&& stem_of(input.name()) is Some && readable(input.name()) && creatable(p) && utf8(input.name()) ==> r is Some
        },
//@ entry
    proof { lemma_kinds(); }
//@ global
/// Kani: leaf_pcm_near
#[verifier::external_body]
pub proof fn axiom_pcm(v: i16)
    ensures -1 <= tq(nz(v)) - v <= 1, tq(nz(tq(nz(v)))) == tq(nz(v)), v >= -32767 ==> in_unit(nz(v))
{}
pub open spec fn near(o: i16, v: i16, level: u32) -> bool { exists|d: f32| #[trigger] within_level(d, nz(v), level) && o == tq(d) }
/// a sample of the WAV file that comes back, for one of the file that was converted
pub open spec fn back(o: i16, v: i16, level: u32) -> bool {
    if level == 0 { o == tq(nz(v)) && -1 <= o - v <= 1 } else { v != -32768 ==> near(o, v, if level > 10 { 10 } else { level }) }
}
/// a WAV file is converted, and the file that is made is converted back
pub fn client_cli(input: &Path, dir: &Path, level: u32, mid: &Path, dir2: &Path, level2: u32) -> (r: (Option<()>, Option<()>))
    requires
        called(input.name(), "wav"@), called(mid.name(), "adhoc"@), utf8(input.name()), utf8(mid.name()), stem_of(input.name()) is Some, stem_of(mid.name()) is Some,
        mid.name() == dest(input.name(), dir.name(), ".adhoc"@),
        readable(input.name()), creatable(mid.name()), readable(mid.name()), creatable(dest(mid.name(), dir2.name(), ".wav"@)),
        forall|b: Seq<u8>| #[trigger] left(mid.name(), b) ==> on_disk(mid.name()) == b,
        on_disk(mid.name()).len() <= 0x80_0000_0000_0000,
        ({ let b = on_disk(input.name());
            &&& b.len() < 0x7000_0000
            &&& exists|d: int| #[trigger] wav_ok(b, d)
            &&& 2 * (at4(b, 24) * at2(b, 22)) <= 0xffff_ffff }),
    ensures
        r.0 is Some, r.1 is Some,
        ({ let b = on_disk(input.name());
            exists|d: int, pcm: Seq<u8>| #![trigger wav_says(b, d), samples(pcm)] ({
                let w = wav_says(b, d); let o = samples(pcm);
                &&& wav_ok(b, d) && left(dest(mid.name(), dir2.name(), ".wav"@), canonical(at4(b, 24) as int, at2(b, 22) as int, pcm.len() as int) + pcm)
                &&& pcm.len() == 2 * w.len() && o.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> back(#[trigger] o[i], w[i], level)
            }) }),
{
    proof { lemma_kinds(); }
    let r0 = convert_file(input, dir, level);
    let ghost b = on_disk(input.name());
    let ghost d = choose|d: int| #[trigger] recorded_as(mid.name(), b, d, level);
    let ghost (cd, xs) = choose|cd: AdhocCodec, xs: Seq<Seq<i16>>| #[trigger] recorded(cd, xs, b, d, level) && (creatable(mid.name()) ==> left(mid.name(), enc_fields(stored(cd))));
    let ghost c = cd.c();
    let ghost w = wav_says(b, d);
    proof {
        lemma_says(b, d);
        lemma_whole_sets2(sampled(data_of(b, d), at2(b, 34) as int).len() as int, c);
        assert(xs[0].len() * c == w.len()) by { lemma_multiples(w.len() as int, 0, c); }
        assert(recording(on_disk(mid.name()), cd, xs));
    }
    let r1 = convert_file(mid, dir2, level2);
    proof {
        let p = dest(mid.name(), dir2.name(), ".wav"@);
        assert(played_as(p, cd, xs));
        let pcm = choose|pcm: Seq<u8>| left(p, canonical(cd.stream.info->0.sample_rate as int, cd.c(), pcm.len() as int) + pcm) && pcm.len() == 2 * (xs[0].len() * cd.c()) && #[trigger] samples(pcm) == quantised(woven(xs, cd.c(), xs[0].len() as int, cd.scale));
        let o = samples(pcm);
        let lvl: u32 = if level > 10 { 10 } else { level };
        assert forall|i: int| 0 <= i < w.len() implies back(#[trigger] o[i], w[i], level) by {
            let t = i / c; let j = i % c; let n = xs[0].len() as int;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, c);
            assert(i == t * c + j) by (nonlinear_arith) requires i == c * t + j;
            assert(t < n) by (nonlinear_arith) requires t * c + j < n * c, j >= 0, c >= 1;
            assert(t >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, c); }
            let s = heard(w)[i];
            assert(heard(w)[t * c + j] == s);
            assert(qrel(cd.inv_scale, heard(w)[t * c + j], xs[j][t]));
            let e = choose|e: f32| #[trigger] dithered(s, e, cd.inv_scale) && xs[j][t] == tq(e);
            let noise = choose|noise: f32| unit(noise) && e == #[trigger] dith(s, noise, cd.inv_scale);
            let v = xs[j][t];
            assert(o[i] == tq(fmul(nz(v), cd.scale)));
            axiom_pcm(w[i]); axiom_tq_range(e);
            if level == 0 {
                axiom_level0(s, noise, v);
                assert(v == tq(s) && o[i] == tq(nz(v)));
            } else if w[i] != -32768 {
                axiom_lossy(s, noise, lvl);
                assert(within_level(fmul(nz(v), cd.scale), nz(w[i]), lvl));
            }
        }
        assert(o.len() == w.len());
        let w2 = wav_says(b, d); let o2 = samples(pcm);
    }
    (r0, r1)
}
