// The WAV codec: a recording is the sequence of its 16-bit samples, channels interleaved
//@ file src/codec/wav.rs
//@ type RawWavHeader
//@ type WavCodec
//@ global
/// a 16-bit value from its two bytes, lower one first
#[verifier::opaque]
pub open spec fn le2(a: u8, b: u8) -> i16 { ((a as u16) | ((b as u16) << 8u16)) as i16 }
pub open spec fn lo(x: i16) -> u8 { (x as u16 & 0xff) as u8 }
pub open spec fn hi(x: i16) -> u8 { ((x as u16 >> 8u16) & 0xff) as u8 }
pub open spec fn samples(pcm: Seq<u8>) -> Seq<i16> { Seq::new((pcm.len() / 2) as nat, |i: int| le2(pcm[2 * i], pcm[2 * i + 1])) }
/// v put over s from position p on
pub open spec fn put<T>(s: Seq<T>, p: int, v: Seq<T>) -> Seq<T> { s.take(p) + v + (if p + v.len() <= s.len() { s.skip(p + v.len()) } else { Seq::empty() }) }
pub open spec fn quantised(s: Seq<f32>) -> Seq<i16> { Seq::new(s.len(), |i: int| tq(s[i])) }
/// bytes of integers, lower ones first (core's from_le_bytes and to_le_bytes)
#[verifier::opaque]
pub open spec fn le4(a: u8, b: u8, c: u8, d: u8) -> u32 { (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32) }
pub open spec fn b4(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8u32) & 0xff) as u8, ((x >> 16u32) & 0xff) as u8, ((x >> 24u32) & 0xff) as u8] }
pub open spec fn b2(x: i16) -> Seq<u8> { seq![lo(x), hi(x)] }
#[verifier::external_body]
pub fn vx_i16_from_le_bytes(b: [u8; 2]) -> (r: i16) ensures r == le2(b@[0], b@[1]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r as i16 == le2(b@[0], b@[1]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le4(b@[0], b@[1], b@[2], b@[3]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_i32_from_le_bytes(b: [u8; 4]) -> (r: i32) ensures r as u32 == le4(b@[0], b@[1], b@[2], b@[3]) { unimplemented!() }
pub trait VxLe { type Bytes; spec fn le_of(self) -> Self::Bytes; fn vx_to_le_bytes(self) -> (r: Self::Bytes) ensures r == self.le_of(); }
impl VxLe for i16 { type Bytes = [u8; 2]; open spec fn le_of(self) -> [u8; 2] { [lo(self), hi(self)] }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 2]) { unimplemented!() } }
impl VxLe for u16 { type Bytes = [u8; 2]; open spec fn le_of(self) -> [u8; 2] { [lo(self as i16), hi(self as i16)] }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 2]) { unimplemented!() } }
impl VxLe for u32 { type Bytes = [u8; 4]; open spec fn le_of(self) -> [u8; 4] { [b4(self)[0], b4(self)[1], b4(self)[2], b4(self)[3]] }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 4]) { unimplemented!() } }
pub open spec fn sat64(x: int) -> i64 { if x > i64::MAX { i64::MAX } else if x < i64::MIN { i64::MIN } else { x as i64 } }
pub assume_specification [i64::saturating_add](x: i64, y: i64) -> (r: i64)
    ensures r == sat64(x + y);
pub assume_specification [i64::saturating_mul](x: i64, y: i64) -> (r: i64)
    ensures r == sat64(x * y);
/// a vector of bytes holds no more than isize::MAX
pub open spec fn MAXPCM() -> int { 0x7fff_ffff_ffff_fffe }
global size_of RawWavHeader == 44;
impl WavCodec {
    pub open spec fn smp(&self) -> Seq<i16> { samples(self.pcm@) }
    pub open spec fn ch(&self) -> int { self.info.channels as int }
    pub open spec fn at(&self) -> int { self.short_cursor as int }
    /// whole samples, and a position among them
    pub open spec fn placed(&self) -> bool { self.pcm@.len() % 2 == 0 && self.pcm@.len() <= MAXPCM() && self.at() <= self.smp().len() }
    /// whole sets of channels, and a position at the first channel of a set
    pub open spec fn wf(&self) -> bool { self.placed() && self.ch() >= 1 && self.smp().len() % (self.ch() as nat) == 0 && self.at() % self.ch() == 0 }
}
/// the whole sets among n samples
pub proof fn lemma_whole_sets2(n: int, c: int)
    requires c >= 1, n >= 0
    ensures 0 <= n / c, 0 <= (n / c) * c <= n, ((n / c) * c) % c == 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n / c, c);
    vstd::arithmetic::div_mod::lemma_mod_bound(n, c);
    assert((n / c) * c == c * (n / c)) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, c);
    assert(0 <= (n / c) * c) by (nonlinear_arith) requires 0 <= n / c, c >= 1;
}
pub broadcast proof fn lemma_le2(x: i16) ensures le2(lo(x), #[trigger] hi(x)) == x {
    reveal(le2);
    assert((((x as u16 & 0xff) as u8 as u16) | ((((x as u16 >> 8u16) & 0xff) as u8 as u16) << 8u16)) as i16 == x) by (bit_vector);
}
pub proof fn lemma_shl1(x: usize) requires x <= 0x3fff_ffff_ffff_ffff ensures x << 1 == 2 * x { assert(x << 1 == 2 * x) by (bit_vector) requires x <= 0x3fff_ffff_ffff_ffff; }
pub proof fn lemma_multiples(a: int, b: int, c: int)
    requires c >= 1, a % c == 0, b % c == 0
    ensures (a + b) % c == 0, (a - b) % c == 0, (a / c) * c == a
{
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, c);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop(a, b, c);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c);
    vstd::arithmetic::div_mod::lemma_small_mod(0, c as nat);
    assert((a / c) * c == c * (a / c)) by (nonlinear_arith);
}
/// the bytes of a sample, as they are cut out of it
pub broadcast proof fn lemma_cut_hi(x: i16) ensures #[trigger] ((x >> 8) & 0xff) as u8 == hi(x) {
    assert(((x >> 8) & 0xff) as u8 == ((x as u16 >> 8u16) & 0xff) as u8) by (bit_vector);
}
pub broadcast proof fn lemma_cut_lo(x: i16) ensures #[trigger] ((x >> 0) & 0xff) as u8 == lo(x) {
    assert(((x >> 0) & 0xff) as u8 == (x as u16 & 0xff) as u8) by (bit_vector);
}
pub broadcast proof fn lemma_cut_and(x: i16) ensures #[trigger] (x & 0xff) as u8 == lo(x) {
    assert((x & 0xff) as u8 == (x as u16 & 0xff) as u8) by (bit_vector);
}
pub broadcast proof fn lemma_cut_shr(x: i16) ensures #[trigger] (x >> 8) as u8 == hi(x) {
    assert((x >> 8) as u8 == ((x as u16 >> 8u16) & 0xff) as u8) by (bit_vector);
}
pub broadcast proof fn lemma_cut_as(x: i16) ensures #[trigger] (x as u8) == lo(x) {
    assert(x as u8 == (x as u16 & 0xff) as u8) by (bit_vector);
}
pub broadcast group cut { lemma_cut_hi, lemma_cut_lo, lemma_cut_and, lemma_cut_shr, lemma_cut_as, lemma_le2 }
//@ fn WavCodec::new
//@ ret r
//@ spec
    ensures r.info == info, r.smp() =~= Seq::<i16>::empty(), r.at() == 0, info.channels >= 1 ==> r.wf()
//@ fn WavCodec::info
//@ ret r
//@ spec
    ensures r == self.info
//@ fn WavCodec::num_samples
//@ ret r
//@ spec
    ensures r == self.smp().len()
//@ fn WavCodec::get_sample
//@ ret r
//@ spec
    requires 2 * idx + 1 < pcm@.len() <= MAXPCM()
    ensures r == samples(pcm@)[idx as int]
//@ fn WavCodec::offset_cursor
//@ spec
    requires old(self).short_cursor + offset <= i64::MAX, old(self).short_cursor <= i64::MAX
    ensures final(self).info == old(self).info, final(self).pcm == old(self).pcm,
        final(self).short_cursor == (if old(self).short_cursor + offset < 0 { 0 } else { old(self).short_cursor + offset }),
//@ fn WavCodec::write_sample
//@ spec
    requires old(self).placed(), old(self).pcm@.len() + 2 <= MAXPCM()
    ensures final(self).placed(), final(self).info == old(self).info, final(self).at() == old(self).at() + 1,
        final(self).smp() =~= put(old(self).smp(), old(self).at(), seq![truncated_sample]),
//@ entry
    broadcast use cut;
    proof { lemma_le2(truncated_sample); lemma_shl1(self.short_cursor as usize); }
//@ file src/codec/wav.rs
//@ fn WavCodec as Streamable::filesize_upperbound
//@ rename stream_filesize_upperbound
//@ ret r
//@ spec
    requires self.pcm@.len() <= 0x0fff_ffff_ffff_fff0
    ensures r == 8 * (44 + self.pcm@.len())
//@ fn WavCodec as Streamable::encode
//@ rename stream_encode
//@ ret r
//@ spec
    requires old(self).wf(), old(self).pcm@.len() + samples@.len() * 2 <= MAXPCM()
    ensures final(self).wf(), final(self).info == old(self).info,
        ({
            let n = (samples@.len() as int / old(self).ch()) * old(self).ch();
            &&& r is Some && r->0 == n
            &&& final(self).smp() =~= put(old(self).smp(), old(self).at(), quantised(samples@.take(n)))
            &&& final(self).at() == old(self).at() + n
        }),
//@ entry
    broadcast use lemma_mod_def;
    let ghost c = self.ch();
    let ghost s0 = self.smp();
    let ghost p0 = self.at();
    proof {
        lemma_whole_sets2(samples@.len() as int, c);
        lemma_multiples(p0, (samples@.len() as int / c) * c, c);
    }
//@ loop 0 label it
    invariant
        c >= 1, self.ch() == c, self.info == old(self).info, self.placed(), p0 <= s0.len(),
        it.seq().len() == valid_len, valid_len <= samples@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == samples@[i],
        old(self).pcm@.len() + samples@.len() * 2 <= MAXPCM(), old(self).placed(), s0 == old(self).smp(), p0 == old(self).at(),
        self.at() == p0 + it.index@,
        self.smp() =~= put(s0, p0, quantised(samples@.take(it.index@ as int))),
//@ fn WavCodec as Streamable::decode
//@ rename stream_decode
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).info == old(self).info, final(self).pcm == old(self).pcm,
        ({
            let n = (old(out)@.len() as int / old(self).ch()) * old(self).ch();
            let rest = old(self).smp().len() - old(self).at();
            let k = if n < rest { n } else { rest };
            &&& r is None <==> k == 0
            &&& r is Some ==> r->0 == k
            &&& final(self).at() == old(self).at() + k
            &&& final(out)@ =~= put(old(out)@, 0, Seq::new(k as nat, |i: int| nz(old(self).smp()[old(self).at() + i])))
        }),
//@ entry
    broadcast use lemma_mod_def;
    let ghost c = self.ch();
    let ghost s0 = self.smp();
    let ghost p0 = self.at();
    let ghost o0 = out@;
    proof {
        lemma_whole_sets2(out@.len() as int, c);
        lemma_multiples(p0, (out@.len() as int / c) * c, c);
        lemma_multiples(s0.len() as int, p0, c);
    }
//@ loop 0
    invariant
        c >= 1, s0 == old(self).smp(), stream_length == s0.len(), self.pcm == old(self).pcm, old(self).placed(),
        p0 <= s0.len(), *cursor == p0 + out_cursor, *cursor <= stream_length, out_cursor <= valid_length, valid_length <= o0.len(), out@.len() == o0.len(),
        out@ =~= put(o0, 0, Seq::new(out_cursor as nat, |i: int| nz(s0[p0 + i]))),
    decreases valid_length - out_cursor
//@ fn WavCodec as Streamable::seek
//@ rename stream_seek
//@ opt floats sample_rate_in_milliseconds sample_rate
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).info == old(self).info, final(self).pcm == old(self).pcm,
        final(self).at() == target(old(self).info.sample_rate, old(self).ch(), old(self).at(), old(self).smp().len() as int, dt),
//@ entry
    let ghost c = self.ch();
    let ghost n = self.smp().len() as int;
    let ghost p = self.at();
    proof {
        lemma_multiples(n, p, c); lemma_multiples(p, n, c);
        let o = match dt { SeekFrom::Start(t) => offset_of(self.info.sample_rate, t), SeekFrom::Current(t) => offset_of(self.info.sample_rate, t), SeekFrom::End(t) => offset_of(self.info.sample_rate, t) };
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(o as int, c);
        vstd::arithmetic::div_mod::lemma_small_mod(0, c as nat);
        lemma_multiples(p, o * c, c); lemma_multiples(n, o * c, c);
    }
//@ global
/// sample sets in t milliseconds
pub open spec fn offset_of<I>(rate: u32, t: I) -> i64 { i64_of(fmul(fdiv(f32_of(rate), 1000.0f32), f32_of(t))) }
/// where a seek in a recording of n samples ends
pub open spec fn target(rate: u32, c: int, p: int, n: int, dt: SeekFrom) -> int {
    match dt {
        SeekFrom::Start(t) => within(offset_of(rate, t) * c, n),
        SeekFrom::Current(t) => within(p + offset_of(rate, t) * c, n),
        SeekFrom::End(t) => within(n + offset_of(rate, t) * c, n),
    }
}
pub open spec fn within(x: int, n: int) -> int { if x < 0 { 0 } else if x > n { n } else { x } }
//@ global
/// the bytes of a header, as it is laid out (Kani: wav_header_bytes)
#[verifier::opaque]
pub open spec fn hdr_bytes(h: RawWavHeader) -> Seq<u8> {
    h.riff@ + b4(h.file_size) + h.wave@ + h.fmt@ + b4(h.cksize) + b2(h.audio_format) + b2(h.num_channels) + b4(h.frequncy as u32) + b4(h.bytes_per_sec as u32)
        + b2(h.block_align) + b2(h.bits_per_sample) + h.data_header@ + b4(h.file_size_data)
}
/// the canonical header of n bytes of 16-bit audio
pub open spec fn canonical(rate: int, c: int, n: int) -> Seq<u8> {
    seq![82u8, 73u8, 70u8, 70u8] + b4((36 + n) as u32) + seq![87u8, 65u8, 86u8, 69u8] + seq![102u8, 109u8, 116u8, 32u8] + b4(16u32) + b2(1i16) + b2(c as i16) + b4(rate as u32) + b4((rate * c * 2) as u32)
        + b2((c * 2) as i16) + b2(16i16) + seq![100u8, 97u8, 116u8, 97u8] + b4(n as u32)
}
/// what is written to
#[verifier::external_body]
pub struct VxOut { x: () }
#[verifier::external_body]
pub struct VxIoError { x: () }
impl VxOut {
    /// everything written so far
    pub uninterp spec fn text(&self) -> Seq<u8>;
    /// it takes whatever it is given
    pub uninterp spec fn takes(&self) -> bool;
    /// std::io::Write: all of it is written, or an error is reported
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), VxIoError>)
        ensures final(self).takes() == old(self).takes(), r is Ok ==> final(self).text() == old(self).text() + b@, old(self).takes() ==> r is Ok
    { unimplemented!() }
    /// some of it is written, perhaps not all
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8]) -> (r: Result<usize, VxIoError>)
        ensures final(self).takes() == old(self).takes(), r is Ok ==> r->Ok_0 <= b@.len() && final(self).text() == old(self).text() + b@.take(r->Ok_0 as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), VxIoError>)
        ensures final(self).takes() == old(self).takes(), final(self).text() == old(self).text(), old(self).takes() ==> r is Ok
    { unimplemented!() }
}
//@ fn RawWavHeader as Default::default
//@ ret r
//@ spec
    ensures r == (RawWavHeader { riff: [82u8, 73u8, 70u8, 70u8], file_size: 0, wave: [87u8, 65u8, 86u8, 69u8], fmt: [102u8, 109u8, 116u8, 32u8], cksize: 0, audio_format: 0, num_channels: 0, frequncy: 0,
        bytes_per_sec: 0, block_align: 0, bits_per_sample: 0, data_header: [100u8, 97u8, 116u8, 97u8], file_size_data: 0 })
//@ fn RawWavHeader::as_bytes
//@ ret r
//@ attr
#[verifier::external_body]
//@ spec
    ensures r@ == hdr_bytes(*self)
//@ fn RawWavHeader::as_bytes_mut
//@ ret r
//@ attr
#[verifier::external_body]
//@ spec
    ensures r@ == hdr_bytes(*old(self)), hdr_bytes(*final(self)) == final(r)@
//@ fn WavCodec::save_to
//@ ret r
//@ opt inst Resource &mut VxOut
//@ spec
    requires 1 <= self.ch() <= 0x7fff, 2 * (self.info.sample_rate * self.ch()) <= 0xffff_ffff, self.pcm@.len() <= 0xffff_ffff - 36
    ensures
        r is Ok ==> final(dst).text() =~= old(dst).text() + canonical(self.info.sample_rate as int, self.ch(), self.pcm@.len() as int) + self.pcm@,
        old(dst).takes() ==> r is Ok,
//@ entry
    proof {
        reveal(hdr_bytes);
        let rate = self.info.sample_rate as int; let c = self.ch();
        assert(rate <= rate * c) by (nonlinear_arith) requires rate >= 0, c >= 1;
        assert(rate * (c * 2) == 2 * (rate * c) && (rate * c) * 2 == 2 * (rate * c) && (2 * rate) * c == 2 * (rate * c) && rate * 2 * c == 2 * (rate * c)) by (nonlinear_arith);
        assert forall|x: u32| #[trigger] (x as i32) as u32 == x by { assert((x as i32) as u32 == x) by (bit_vector); }
        assert forall|x: u32| #[trigger] (x as i16) as u16 == x as u16 by { assert((x as i16) as u16 == x as u16) by (bit_vector); }
    }
//@ global
/// what is read from
#[verifier::external_body]
pub struct VxIn { x: () }
pub struct VxTake { pub of: VxIn, pub n: u64 }
pub open spec fn upto(b: Seq<u8>, p: int, q: int) -> Seq<u8> { if p >= b.len() || q <= p { Seq::empty() } else { b.subrange(p, if q < b.len() { q } else { b.len() as int }) } }
impl VxIn {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    /// reading and seeking report no error
    pub uninterp spec fn ok(&self) -> bool;
    /// std::io: Read::by_ref, Read::take, Seek::seek, Read::read_to_end
    #[verifier::external_body]
    pub fn by_ref(&mut self) -> (r: VxIn)
        ensures r.content() == old(self).content(), r.pos() == old(self).pos(), r.ok() == old(self).ok(), final(self).content() == old(self).content(), final(self).ok() == old(self).ok()
    { unimplemented!() }
    pub fn take(self, n: u64) -> (r: VxTake) ensures r.of == self, r.n == n { VxTake { of: self, n } }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, VxIoError>)
        ensures final(self).content() == old(self).content(), final(self).ok() == old(self).ok(),
            r is Ok ==> match p { SeekFrom::Start(n) => final(self).pos() == n, SeekFrom::Current(d) => final(self).pos() == old(self).pos() + d, SeekFrom::End(d) => final(self).pos() == old(self).content().len() + d },
            old(self).ok() && p is Start ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, VxIoError>)
        ensures final(self).content() == old(self).content(), final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok,
            r is Ok ==> final(buf)@ == old(buf)@ + upto(old(self).content(), old(self).pos(), old(self).content().len() as int) && final(self).pos() >= old(self).content().len()
    { unimplemented!() }
}
impl VxIn {
    /// some bytes, perhaps fewer than there are
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VxIoError>)
        ensures final(self).content() == old(self).content(), final(self).ok() == old(self).ok(), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> r->Ok_0 <= old(buf)@.len() && final(self).pos() == old(self).pos() + r->Ok_0 && final(buf)@ == upto(old(self).content(), old(self).pos(), old(self).pos() + r->Ok_0) + old(buf)@.skip(r->Ok_0 as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), VxIoError>)
        ensures final(self).content() == old(self).content(), final(self).ok() == old(self).ok(), final(buf)@.len() == old(buf)@.len(),
            old(self).ok() && old(self).pos() + old(buf)@.len() <= old(self).content().len() ==> r is Ok,
            r is Ok ==> final(self).pos() == old(self).pos() + old(buf)@.len() && final(buf)@ == upto(old(self).content(), old(self).pos(), old(self).pos() + old(buf)@.len())
    { unimplemented!() }
}
impl VxTake {
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, VxIoError>)
        ensures old(self).of.ok() ==> r is Ok,
            r is Ok ==> final(buf)@ == old(buf)@ + upto(old(self).of.content(), old(self).of.pos(), old(self).of.pos() + old(self).n)
    { unimplemented!() }
}
/// comparison of bytes
pub trait VxBytes { spec fn bytes(&self) -> Seq<u8>; }
impl VxBytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<T: VxBytes + ?Sized> VxBytes for &T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }
#[verifier::external_body]
pub fn vx_bytes_eq<A: VxBytes + ?Sized, B: VxBytes + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.bytes() == b.bytes()) { unimplemented!() }
/// std::io::Read for slices
pub trait VxSliceRead {
    spec fn rest(&self) -> Seq<u8>;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VxIoError>)
        ensures ({
            let n = if old(self).rest().len() < old(buf)@.len() { old(self).rest().len() } else { old(buf)@.len() };
            &&& r is Ok && r->Ok_0 == n
            &&& final(buf)@ == old(self).rest().take(n as int) + old(buf)@.skip(n as int)
            &&& final(self).rest() == old(self).rest().skip(n as int)
        });
}
impl VxSliceRead for &[u8] {
    open spec fn rest(&self) -> Seq<u8> { (**self)@ }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VxIoError>) { unimplemented!() }
}
//@ global
/* ---- what a file says ---- */
pub open spec fn is_data(b: Seq<u8>, i: int) -> bool { b[i] == 100 && b[i + 1] == 97 && b[i + 2] == 116 && b[i + 3] == 97 }
/// the first occurrence of the letters "data" in the first n bytes
pub open spec fn first_data(b: Seq<u8>, n: int, d: int) -> bool { 0 <= d && d + 4 <= n && is_data(b, d) && forall|j: int| 0 <= j < d ==> !#[trigger] is_data(b, j) }
/// how much of it is searched
pub open spec fn region(b: Seq<u8>) -> int { if b.len() < 256 { b.len() as int } else { 256 } }
pub open spec fn at2(b: Seq<u8>, i: int) -> i16 { le2(b[i], b[i + 1]) }
pub open spec fn at4(b: Seq<u8>, i: int) -> u32 { le4(b[i], b[i + 1], b[i + 2], b[i + 3]) }
pub open spec fn wav_ok(b: Seq<u8>, d: int) -> bool {
    &&& b.len() >= 44 && first_data(b, region(b), d) && d + 8 <= region(b)
    &&& at2(b, 20) == 1 && at2(b, 22) >= 1 && (at2(b, 34) == 8 || at2(b, 34) == 16)
}
/// the bytes of the data region
pub open spec fn data_of(b: Seq<u8>, d: int) -> Seq<u8> { upto(b, d + 8, d + 8 + at4(b, d + 4)) }
/// an 8-bit sample as a 16-bit one
pub open spec fn wide(x: u8) -> i16 { i16_of(fmul(fclamp(fsub(fmul(fdiv(f32_of(x), 255.0f32), 2.0f32), 1.0f32), fneg1(), 1.0f32), f32_of(32766i16))) }
pub open spec fn fneg1() -> f32 { -1.0f32 }
pub open spec fn sampled(raw: Seq<u8>, bits: int) -> Seq<i16> { if bits == 8 { Seq::new(raw.len(), |i: int| wide(raw[i])) } else { samples(raw) } }
/// the whole sets of c channels
pub open spec fn whole(s: Seq<i16>, c: int) -> Seq<i16> { s.take((s.len() as int / c) * c) }
pub proof fn lemma_b4(x: u32) ensures le4(b4(x)[0], b4(x)[1], b4(x)[2], b4(x)[3]) == x {
    reveal(le4);
    assert((((x & 0xff) as u8) as u32) | ((((x >> 8u32) & 0xff) as u8 as u32) << 8u32) | ((((x >> 16u32) & 0xff) as u8 as u32) << 16u32) | ((((x >> 24u32) & 0xff) as u8 as u32) << 24u32) == x) by (bit_vector);
}
pub proof fn lemma_hdr(h: RawWavHeader)
    ensures ({ let b = hdr_bytes(h); b.len() == 44 && at2(b, 20) == h.audio_format && at2(b, 22) == h.num_channels && at4(b, 24) == h.frequncy as u32 && at2(b, 34) == h.bits_per_sample }),
{
    reveal(hdr_bytes);
    let b = hdr_bytes(h);
    lemma_le2(h.audio_format); lemma_le2(h.num_channels); lemma_le2(h.bits_per_sample); lemma_b4(h.frequncy as u32);
    let f = b4(h.frequncy as u32);
    assert(b[24] == f[0] && b[25] == f[1] && b[26] == f[2] && b[27] == f[3]);
}
/// the header has what the file begins with
pub open spec fn said(h: RawWavHeader, b: Seq<u8>) -> bool {
    at2(b, 20) == h.audio_format && at2(b, 22) == h.num_channels && at4(b, 24) == h.frequncy as u32 && at2(b, 34) == h.bits_per_sample
}
pub proof fn lemma_said(h: RawWavHeader, b: Seq<u8>)
    requires b.len() >= 44, hdr_bytes(h) == b.take(44)
    ensures said(h, b)
{
    lemma_hdr(h);
    let a = b.take(44);
    assert(a[24] == b[24] && a[25] == b[25] && a[26] == b[26] && a[27] == b[27]);
    assert(a[20] == b[20] && a[21] == b[21] && a[22] == b[22] && a[23] == b[23] && a[34] == b[34] && a[35] == b[35]);
}
/// cutting the bytes off behind the last whole set is cutting the samples off
pub proof fn lemma_blocks(raw: Seq<u8>, c: int)
    requires c >= 1
    ensures ({
        let k = raw.len() as int / (2 * c) * (2 * c);
        &&& 0 <= k <= raw.len() && k % 2 == 0 && samples(raw.take(k)) =~= whole(samples(raw), c) && whole(samples(raw), c).len() as int % c == 0
    })
{
    let n = raw.len() as int; let q = n / (2 * c); let k = q * (2 * c);
    lemma_whole_sets2(n, 2 * c);
    vstd::arithmetic::div_mod::lemma_div_denominator(n, 2, c);
    lemma_whole_sets2(n / 2, c);
    assert(k == 2 * (q * c)) by (nonlinear_arith) requires k == q * (2 * c);
}
//@ fn WavCodec::load
//@ ret r
//@ opt inst Resource VxIn
//@ opt floats scaled_sample
//@ spec
    requires wav_res.content().len() <= 0x7fff_ffff_ffff_0000, wav_res.pos() == 0
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.at() == 0 && r->Ok_0.pcm@.len() <= 0x1_ffff_fffe && exists|d: int| #[trigger] wav_ok(wav_res.content(), d),
        forall|d: int| #[trigger] wav_ok(wav_res.content(), d) ==> {
            let b = wav_res.content(); let w = r->Ok_0;
            &&& wav_res.ok() ==> r is Ok
            &&& r is Ok ==> w.info.channels == at2(b, 22) && w.info.sample_rate == at4(b, 24) && w.smp() =~= whole(sampled(data_of(b, d), at2(b, 34) as int), at2(b, 22) as int)
        },
//@ entry
    broadcast use cut;
    let ghost b = wav_res.content();
    let ghost g = region(b);
//@ loop 0
    invariant_except_break
        __vx_found1 is None,
    invariant
        header_binary@ == b.take(g), 0 <= __vx_i <= g <= 256, g <= b.len(),
        forall|j: int| 0 <= j < __vx_i ==> !#[trigger] is_data(b, j),
    ensures
        __vx_found1 is None ==> forall|j: int| 0 <= j && j + 4 <= g ==> !#[trigger] is_data(b, j),
        __vx_found1 is Some ==> first_data(b, g, (__vx_found1->0).0 as int),
    decreases g - __vx_i
//@ loop 0 begin
    proof {
        let w = b.take(g).subrange(__vx_i as int, __vx_i + 4);
        let t = seq![100u8, 97u8, 116u8, 97u8];
        assert(w.len() == 4 && w[0] == b[__vx_i as int] && w[1] == b[__vx_i + 1] && w[2] == b[__vx_i + 2] && w[3] == b[__vx_i + 3]);
        assert((w =~= t) == is_data(b, __vx_i as int)) by { if is_data(b, __vx_i as int) { assert(w =~= t); } else if w =~= t { assert(w[0] == t[0] && w[1] == t[1] && w[2] == t[2] && w[3] == t[3]); } }
    }
//@ loop 1
    invariant
        __vx_n <= 4, __vx_n <= __vx_w@.len(), said(header, b),
//@ loop 1 before
    proof { lemma_hdr(header); assert(hdr_bytes(header) =~= b.take(44)); lemma_said(header, b); }
//@ loop 2
    invariant
        pcm@.len() == 2 * len, 0 <= __vx_r <= len, len == data_of(b, data_start as int).len(), len <= 0xffff_ffff,
        forall|j: int| 0 <= j < __vx_r ==> #[trigger] pcm@[j] == data_of(b, data_start as int)[j],
        forall|j: int| __vx_r <= j < len ==> le2(#[trigger] pcm@[2 * j], pcm@[2 * j + 1]) == wide(data_of(b, data_start as int)[j]),
    decreases __vx_r
//@ loop 2 begin
    broadcast use cut;
//@ before let block_size
    broadcast use lemma_mod_def;
    let ghost raw = pcm@;
    proof {
        assert(wav_ok(b, data_start as int));
        vstd::arithmetic::div_mod::lemma_small_mod(0, header.num_channels as nat);
        assert(raw.len() <= MAXPCM());
        assert(header.bits_per_sample == 8 ==> samples(raw) =~= sampled(data_of(b, data_start as int), 8));
        assert(header.bits_per_sample == 16 ==> samples(raw) =~= sampled(data_of(b, data_start as int), 16));
        lemma_blocks(raw, header.num_channels as int);
    }
