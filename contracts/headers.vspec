// Contracts for the frame header table
//@ file src/codec/adhoc/frame.rs
//@ type FrameHeader
//@ type FrameHeaders
//@ global
impl FrameHeaders {
    pub open spec fn n(&self) -> int { self.divisor_exp_list.n() }
    pub open spec fn cur(&self) -> int { self.header_cursor as int }
    pub open spec fn hdr(&self, i: int) -> FrameHeader {
        FrameHeader {
            exponent: self.divisor_exp_list.at(i),
            size: self.frame_size_list@[i],
            bit_cursor: self.bit_cursor_list@[i] as u128,
            is_init: self.is_init_frame_list.at(i),
            stack_history: self.stack_history_list@[i],
        }
    }
    pub open spec fn view(&self) -> Seq<FrameHeader> { Seq::new(self.n() as nat, |i: int| self.hdr(i)) }
    /// what reading needs: every list is long enough (holds for every file `load` accepts)
    pub open spec fn readable(&self) -> bool {
        &&& self.frame_size_list@.len() == self.n()
        &&& self.bit_cursor_list@.len() == self.n()
        &&& self.stack_history_list@.len() == self.n()
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.readable()
        &&& self.divisor_exp_list.wf() && self.is_init_frame_list.wf()
        &&& self.is_init_frame_list.n() == self.n()
        &&& self.cur() <= self.n()
        &&& forall|i: int| 0 <= i < self.n() ==> self.divisor_exp_list.at(i) <= 15
    }
    /// no more flag words than 2^48 bits hold
    pub open spec fn tidy(&self) -> bool { self.is_init_frame_list.binary@.len() * 64 <= 0xffff_ffff_ffff }
}

//@ fn FrameHeaders::new
//@ ret r
//@ spec
    ensures r.wf(), r.tidy(), r.n() == 0, r.cur() == 0, r@ =~= Seq::<FrameHeader>::empty()

//@ fn FrameHeaders::len
//@ ret r
//@ spec
    ensures r as int == self.n()

//@ fn FrameHeaders::set_cursor
//@ spec
    ensures final(self).header_cursor == idx, final(self).is_init_frame_list == old(self).is_init_frame_list,
        final(self).n() == old(self).n(), final(self)@ =~= old(self)@,
        old(self).readable() ==> final(self).readable(),
        old(self).wf() && idx <= old(self).n() ==> final(self).wf(),

//@ fn FrameHeaders::reset
//@ spec
    ensures final(self).is_init_frame_list == old(self).is_init_frame_list, final(self).header_cursor == 0,
        final(self).n() == old(self).n(), final(self)@ =~= old(self)@,
        old(self).readable() ==> final(self).readable(),
        old(self).wf() ==> final(self).wf(),

//@ fn FrameHeaders::push
//@ attr
#[verifier::spinoff_prover]
//@ spec
    requires old(self).wf(), old(self).cur() < 0xffff_ffff, header.exponent <= 15, header.bit_cursor <= 0xffff_ffff_ffff_ffff,
    ensures final(self).wf(), final(self).cur() == old(self).cur() + 1, old(self).tidy() ==> final(self).tidy(),
        final(self)@ =~= old(self)@.take(old(self).cur()).push(header),
        final(self).n() == old(self).cur() + 1,
//@ exit
    proof {
        let c = old(self).cur();
        let o = old(self);
        assert(self.divisor_exp_list@ =~= o.divisor_exp_list@.take(c).push(header.exponent));
        assert(self.is_init_frame_list@ =~= o.is_init_frame_list@.take(c).push(header.is_init));
        assert forall|i: int| 0 <= i <= c implies #[trigger] self.hdr(i) == (if i == c { header } else { o.hdr(i) }) by {
            assert(self.divisor_exp_list@[i] == self.divisor_exp_list.at(i));
            assert(self.is_init_frame_list@[i] == self.is_init_frame_list.at(i));
            if i < c {
                assert(o.divisor_exp_list@[i] == o.divisor_exp_list.at(i));
                assert(o.is_init_frame_list@[i] == o.is_init_frame_list.at(i));
            }
        }
        assert forall|i: int| 0 <= i < self.n() implies #[trigger] self.divisor_exp_list.at(i) <= 15 by { assert(self.hdr(i).exponent <= 15); }
    }

//@ fn FrameHeaders::get
//@ ret r
//@ spec
    requires self.readable()
    ensures r == (if index < self.n() { Some(self.hdr(index as int)) } else { None::<FrameHeader> }), r is Some ==> r->0.exponent <= 15

//@ fn FrameHeaders as Iterator::next
//@ ret r
//@ spec
    requires old(self).readable()
    ensures r == (if old(self).cur() < old(self).n() { Some(old(self).hdr(old(self).cur())) } else { None::<FrameHeader> }),
        r is Some ==> r->0.exponent <= 15, final(self).is_init_frame_list == old(self).is_init_frame_list,
        final(self).cur() == (if old(self).cur() < old(self).n() { old(self).cur() + 1 } else { old(self).cur() }),
        final(self).readable(), final(self).n() == old(self).n(), final(self)@ =~= old(self)@,
        forall|i: int| final(self).hdr(i) == #[trigger] old(self).hdr(i),
        old(self).wf() ==> final(self).wf(),

//@ fn FrameHeaders::is_valid
//@ ret r
//@ spec
    requires num_channels > 0
    ensures r == (self.readable() && self.n() % (num_channels as int) == 0
        && forall|i: int| 0 <= i < self.bit_cursor_list@.len() ==> #[trigger] self.bit_cursor_list@[i] <= stream_len_in_bits)
//@ loop 0 label it
    invariant_except_break
        __vx_all1, forall|i: int| 0 <= i < it.index@ ==> #[trigger] self.bit_cursor_list@[i] <= stream_len_in_bits,
    invariant
        it.seq().len() == self.bit_cursor_list@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.bit_cursor_list@[i],
    ensures
        __vx_all1 == (forall|i: int| 0 <= i < self.bit_cursor_list@.len() ==> #[trigger] self.bit_cursor_list@[i] <= stream_len_in_bits),
