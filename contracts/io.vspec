// Saving and loading. bincode is trusted to write the derived encoding and to read back what it wrote; everything else is the real code.
//@ file src/collections/nibble_list.rs
//@ encoded NibbleList
//@ file src/collections/bitvec.rs
//@ encoded BitVec
//@ file src/collections/bitstream.rs
//@ encoded BitStream
//@ file src/codec.rs
//@ encoded StreamInfo
//@ file src/codec/adhoc/audio_stream.rs
//@ encoded AudioStream
//@ file src/codec/adhoc/frame.rs
//@ encoded FrameHeaders
//@ file src/codec/adhoc.rs
//@ global
/// what is written to and read from
#[verifier::external_body]
pub struct VxSink { x: () }
#[verifier::external_body]
pub struct VxSource { x: () }
/// the writer takes whatever it is given
pub uninterp spec fn accepts<W>(w: W) -> bool;
/// exactly these bytes have been written
pub uninterp spec fn wrote<W>(w: W, b: Seq<u8>) -> bool;
pub uninterp spec fn content<R>(r: R) -> Seq<u8>;
/// the derived encoding of a value, and of the sequence of its fields
pub uninterp spec fn enc<T>(v: T) -> Seq<u8>;
pub uninterp spec fn enc_fields<F>(f: F) -> Seq<u8>;
pub mod bincode {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Error { x: () }
    /// what has been written in full is the encoding
    #[verifier::external_body]
    pub fn serialize_into<W, T>(w: W, v: &T) -> (r: Result<(), Error>)
        ensures r is Ok ==> wrote(w, enc(*v)), accepts(w) ==> r is Ok
    { unimplemented!() }
    /// any bytes give some value, which is not larger than they are, or an error; the encoding of a value gives that value
    #[verifier::external_body]
    pub fn deserialize_from<R, T>(r: R) -> (x: Result<T, Error>)
        ensures
            x is Ok ==> enc(x->Ok_0).len() <= content(r).len(),
            forall|v: T| #[trigger] enc(v) == content(r) ==> x == Ok::<T, Error>(v)
    { unimplemented!() }
}
/// all that is stored of a codec
pub open spec fn stored(cd: AdhocCodec) -> (u32, FrameHeaders, AudioStream) { (cd.compression_level, cd.frame_header_list, cd.stream) }
/// what is stored is a recording the codec can have made
pub open spec fn storable(k: (u32, FrameHeaders, AudioStream)) -> bool {
    &&& k.0 <= 10 && k.1.wf() && k.2.info is Some && 1 <= k.2.info->0.channels <= 0xffff
    &&& k.1.n() % (k.2.info->0.channels as int) == 0
    &&& forall|i: int| 0 <= i < k.1.bit_cursor_list@.len() ==> #[trigger] k.1.bit_cursor_list@[i] <= k.2.stream.nbits()
    &&& k.2.stream.nbits() <= SILENT()
}
impl AdhocCodec {
    pub open spec fn measurable(&self) -> bool {
        &&& self.frame_header_list.readable() && self.frame_header_list.n() <= 0xffff_ffff && self.stream.stream.nbits() <= SILENT() + 0x40_0000_0000_0000
        &&& self.frame_header_list.tidy()
    }
}
/// a codec made from what was stored
pub open spec fn loaded(cd: AdhocCodec, k: (u32, FrameHeaders, AudioStream)) -> bool {
    &&& cd.compression_level == k.0 && cd.stream.info == k.2.info
    &&& cd.hs() =~= k.1@ && cd.frame_header_list.n() == k.1.n() && cd.frame_header_list.wf()
    &&& cd.stream.stream.binary == k.2.stream.binary
}
//@ fn AdhocCodec::save_to
//@ ret r
//@ opt inst Resource VxSink
//@ entry
    broadcast use vx_derive_save_to_0;
//@ spec
    ensures r is Some ==> wrote(res, enc_fields(stored(*self))), accepts(res) ==> r is Some

//@ fn AdhocCodec::load
//@ ret r
//@ opt inst Resource VxSource
//@ opt opt_map
//@ opt floats
//@ spec
    requires content(res).len() <= 0x80_0000_0000_0000
    ensures
        r is Some ==> r->0.seekable() && r->0.dec_safe() && r->0.lvl_ok() && 1 <= r->0.c() <= 0xffff,
        r is Some && content(res).len() < 0x2000_0000_0000 ==> r->0.measurable(),
        forall|k: (u32, FrameHeaders, AudioStream)| #[trigger] enc_fields(k) == content(res) && storable(k) ==> r is Some && at_start(r->0) && loaded(r->0, k),
//@ entry
    broadcast use vx_derive_load_0;
    proof {
        assert forall|k: (u32, FrameHeaders, AudioStream)| #[trigger] enc_fields(k) == content(res) implies enc(vx_of_load_0(k)) == content(res) by {}
    }
//@ before let info
    proof { vx_size_load_0(vx_fields_load_0(slim)); }
//@ loop 0 label it
    invariant
        it.seq().len() == info.channels,
        __vx_v@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> chan_fresh(#[trigger] __vx_v@[k]),

//@ file src/collections/nibble_list.rs
//@ global
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::capacity](v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len(), r <= 0xffff_ffff_ffff;
/// an array of three 16-bit values has no padding
#[verifier::external_body]
pub proof fn axiom_size_history() ensures vstd::layout::size_of::<[i16; 3]>() == 6 {}
/// the size of a value is that of its type
#[verifier::external_body]
pub proof fn axiom_size_val<T>(v: &T) ensures vstd::layout::spec_size_of_val::<T>(v) == vstd::layout::size_of::<T>() {}
global size_of StreamInfo == 8;
//@ fn NibbleList::capacity
//@ ret r
//@ spec
    ensures r >= self.data@.len() * 8, r <= 0x7_ffff_ffff_fff8
//@ file src/codec/adhoc/frame.rs
//@ fn FrameHeaders::get_elem_size_in_bits
//@ ret r
//@ spec
    requires vstd::layout::size_of::<T>() <= 0xffff
    ensures r == 8 * vstd::layout::size_of::<T>()
//@ fn FrameHeaders::calculate_weight_upperbound
//@ ret r
//@ spec
    requires self.readable(), self.n() <= 0xffff_ffff, self.tidy()
    ensures r >= 8 * vx_len_FrameHeaders(*self), r <= 0x10_0000_0000_0000
//@ entry
    proof { axiom_size_history(); axiom_size_val::<u32>(&self.header_cursor); }
//@ file src/codec/adhoc.rs
//@ fn AdhocCodec::filesize_upperbound
//@ ret r
//@ spec
    requires self.measurable()
    ensures r >= 8 * enc_fields(stored(*self)).len()
//@ entry
    proof { vx_size_save_to_0(stored(*self)); }
//@ fn AdhocCodec as Streamable::filesize_upperbound
//@ rename stream_filesize_upperbound
//@ ret r
//@ spec
    requires self.measurable()
    ensures r >= 8 * enc_fields(stored(*self)).len()
//@ global
/// the source has what was written to the sink
pub open spec fn carries(sink: VxSink, source: VxSource) -> bool { forall|b: Seq<u8>| #[trigger] wrote(sink, b) ==> content(source) == b }
/// saved at any time and loaded again, it is the same recording, at its beginning
pub fn client_save_load(cd: &AdhocCodec, sink: VxSink, source: VxSource, xs: Ghost<Seq<Seq<i16>>>) -> (r: Option<AdhocCodec>)
    requires cd.full(xs@), cd.lvl_ok(), cd.frame_header_list.wf(), cd.c() <= 0xffff, cd.stream.stream.nbits() <= SILENT(), accepts(sink), carries(sink, source), content(source).len() <= 0x80_0000_0000_0000
    ensures
        r is Some, r->0.full(xs@) && r->0.dec_ok(xs@, 0) && at_start(r->0) && r->0.stream.info == cd.stream.info && r->0.scale == cd.scale && r->0.compression_level == cd.compression_level,
{
    let s = cd.save_to(sink);
    let r = AdhocCodec::load(source);
    proof {
        let k = stored(*cd);
        assert forall|i: int| 0 <= i < k.1.bit_cursor_list@.len() implies #[trigger] k.1.bit_cursor_list@[i] <= k.2.stream.nbits() by {
            assert(cd.frame_header_list@[i].bit_cursor <= cd.stream.stream.nbits());
        }
        assert(storable(k));
        let b = r->0;
        assert(b.frame_header_list@ =~= b.hs());
        assert(cd.frame_header_list@ =~= cd.hs());
        lemma_start_dec(b, xs@);
    }
    r
}
/// what is announced is no less than what is written
pub fn client_size(cd: &AdhocCodec, sink: VxSink) -> (r: u64)
    requires cd.measurable(), accepts(sink)
    ensures exists|b: Seq<u8>| #[trigger] wrote(sink, b) && r >= 8 * b.len()
{
    let r = cd.stream_filesize_upperbound();
    let s = cd.save_to(sink);
    r
}
/// whatever has been done with a recording
pub fn client_size_history(info: StreamInfo, level: u32, bufs: &Vec<Vec<f32>>, ops: &Vec<(bool, u64, usize)>, sink: VxSink) -> (r: u64)
    requires info.channels >= 1, room_for(bufs@, info.channels as int, 0), accepts(sink)
    ensures exists|b: Seq<u8>| #[trigger] wrote(sink, b) && r >= 8 * b.len()
{
    let (mut cd, xs) = client_record(info, level, bufs);
    let h = client_history(&mut cd, ops, xs, Ghost(0));
    client_size(&cd, sink)
}
/// with another recording over the old one
pub fn client_size_again(cd: &mut AdhocCodec, bufs: &Vec<Vec<f32>>, ops: &Vec<(bool, u64, usize)>, sink: VxSink) -> (r: u64)
    requires
        old(cd).seekable(), old(cd).frame_header_list.wf(), old(cd).frame_header_list.tidy(), small(*old(cd)), room_for(bufs@, old(cd).c(), 0), nsets(bufs@, old(cd).c(), bufs@.len() as int) > 0,
        accepts(sink),
    ensures exists|b: Seq<u8>| #[trigger] wrote(sink, b) && r >= 8 * b.len()
{
    let xs = client_record_again(cd, bufs);
    client_size(cd, sink)
}
/// a loaded recording is decoded after any seeks and decodes
pub fn client_load_history(cd: &AdhocCodec, sink: VxSink, source: VxSource, ops: &Vec<(bool, u64, usize)>, ms: u64, size: usize, xs: Ghost<Seq<Seq<i16>>>) -> (r: (Vec<f32>, Option<usize>))
    requires cd.full(xs@), cd.lvl_ok(), cd.frame_header_list.wf(), cd.c() <= 0xffff, cd.stream.stream.nbits() <= SILENT(), accepts(sink), carries(sink, source), content(source).len() <= 0x80_0000_0000_0000
    ensures ({
        let c = cd.c(); let n = xs@[0].len() as int;
        let o = if ms == 0 { 0 } else { set_at(cd.stream.info->0.sample_rate, ms) as int };
        let s = if o < n { o } else { n };
        let l = size as int / c; let k = if l < n - s { l } else { n - s };
        &&& (r.1 is None) == (k == 0) && (r.1 is Some ==> r.1->0 == k * c)
        &&& r.0@.len() == size
        &&& delivered(r.0@, xs@, s, k, c, cd.scale)
    }),
{
    match client_save_load(cd, sink, source, xs) {
        Some(a) => {
            let mut a = a;
            let ghost a0 = a;
            let r = client_seek(&mut a, ops, ms, size, xs, Ghost(0));
            proof {
                let c = cd.c(); let n = xs@[0].len() as int;
                let o = if ms == 0 { 0 } else { set_at(cd.stream.info->0.sample_rate, ms) as int };
                let s = if o < n { o } else { n };
                let l = size as int / c; let k = if l < n - s { l } else { n - s };
                assert(a0.c() == c && a0.stream.info == cd.stream.info && a0.scale == cd.scale);
            }
            r
        }
        None => (Vec::new(), None),
    }
}
/// any bytes whatsoever: loading, then any seeks and decodes
pub fn client_damaged(source: VxSource, ops: &Vec<(bool, u64, usize)>, sink: VxSink)
    requires content(source).len() < 0x2000_0000_0000
{
    match AdhocCodec::load(source) {
        Some(mut cd) => {
            let mut i: usize = 0;
            while i < ops.len()
                invariant 0 <= i <= ops@.len(), cd.seekable(), cd.dec_safe(), cd.measurable()
                decreases ops@.len() - i
            {
                let n = cd.calculate_sample_count_per_channel();
                let b = cd.stream_filesize_upperbound();
                if ops[i].0 { cd.seek(SeekFrom::Start(ops[i].1)); }
                else {
                    let mut buf: Vec<f32> = Vec::new();
                    buf.resize(ops[i].2, 0.0);
                    let r = cd.stream_decode(&mut buf);
                    assert(r is Some ==> r->0 <= ops@[i as int].2 && r->0 as int % cd.c() == 0);
                }
                i += 1;
            }
            let s = cd.save_to(sink);
        }
        None => {}
    }
}
