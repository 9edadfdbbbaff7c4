// Contracts for src/collections/bitstream.rs
//@ file src/collections/bitstream.rs
//@ global
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
/// no more is stored than what was there or lies below the cursor, up to two words
pub open spec fn grew(a: BitStream, b: BitStream) -> bool { a.nbits() >= b.nbits() && a.nbits() <= imax(b.nbits(), a.pos() + 256) }
/* ---- bits of a word ---- */
pub open spec fn bitw(w: u128, i: int) -> bool { 0 <= i < 128 && (w >> (i as u128)) & 1u128 == 1u128 }

pub proof fn lemma_write_word(old_w: u128, bits: u128, c: u128, i: u128)
    requires c < 128, i < 128
    ensures ({
        let nw = (old_w & sub(1u128 << c, 1)) | (bits << c);
        (i < c ==> ((nw >> i) & 1 == (old_w >> i) & 1)) &&
        (i >= c ==> ((nw >> i) & 1 == (bits >> sub(i, c)) & 1))
    })
{
    assert(c < 128 && i < 128 ==> ({
        let nw = (old_w & sub(1u128 << c, 1)) | (bits << c);
        (i < c ==> ((nw >> i) & 1 == (old_w >> i) & 1)) &&
        (i >= c ==> ((nw >> i) & 1 == (bits >> sub(i, c)) & 1))
    })) by (bit_vector);
}
/// other ways to write the mask of the low c bits, and a word with one bit put into it
pub proof fn lemma_mask_forms(c: u128)
    requires c < 128
    ensures !(!0u128 << c) == sub(1u128 << c, 1), c > 0 ==> !0u128 >> sub(128, c) == sub(1u128 << c, 1),
{
    assert(!(!0u128 << c) == sub(1u128 << c, 1)) by (bit_vector) requires c < 128;
    assert(c > 0 ==> !0u128 >> sub(128, c) == sub(1u128 << c, 1)) by (bit_vector) requires c < 128;
}
pub proof fn lemma_or_forms(w: u128, c: u128)
    requires c < 128
    ensures w | (0u128 << c) == w, w | 0 == w, w + (1u128 << c) <= u128::MAX && w < (1u128 << c) ==> w | (1u128 << c) == add(w, 1u128 << c),
{
    assert(w | (0u128 << c) == w) by (bit_vector) requires c < 128;
    assert(w | 0 == w) by (bit_vector);
    assert(w < (1u128 << c) ==> w | (1u128 << c) == add(w, 1u128 << c)) by (bit_vector) requires c < 128;
}
pub proof fn lemma_mask_pos(c: u128)
    requires c < 128
    ensures (1u128 << c) >= 1
{ assert(c < 128 ==> (1u128 << c) >= 1) by (bit_vector); }
pub proof fn lemma_spill(bits: u128, rem: u128, i: u128)
    requires 0 < rem < 128, i < 128
    ensures ((bits >> rem) >> i) & 1 == (if i + rem < 128 { (bits >> ((i + rem) as u128)) & 1 } else { 0 })
{
    assert(0 < rem && rem < 128 && i < 128 && add(i, rem) < 128 ==> ((bits >> rem) >> i) & 1 == (bits >> add(i, rem)) & 1) by (bit_vector);
    assert(0 < rem && rem < 128 && i < 128 && add(i, rem) >= 128 ==> ((bits >> rem) >> i) & 1 == 0) by (bit_vector);
}
#[verifier::spinoff_prover]
pub proof fn lemma_read_lo(w: u128, c: u128, n: u128, i: u128)
    requires c < 128, n <= 128, i < 128
    ensures ({ let mask = if n < 128 { sub(1u128 << n, 1) } else { !0u128 };
        (((w >> c) & mask) >> i) & 1 == (if i < n && i + c < 128 { (w >> ((i + c) as u128)) & 1 } else { 0 }) })
{
    assert(c < 128 && n < 128 && i < 128 ==> (((w >> c) & sub(1u128 << n, 1)) >> i) & 1 == (if i < n && add(i, c) < 128 { (w >> add(i, c)) & 1 } else { 0 })) by (bit_vector);
    assert(c < 128 && i < 128 ==> (((w >> c) & !0u128) >> i) & 1 == (if add(i, c) < 128 { (w >> add(i, c)) & 1 } else { 0 })) by (bit_vector);
}
#[verifier::spinoff_prover]
pub proof fn lemma_read_two(w: u128, x: u128, c: u128, n: u128, i: u128)
    requires 0 < c < 128, n <= 128, i < 128
    ensures ({ let mask = if n < 128 { sub(1u128 << n, 1) } else { !0u128 }; let r = sub(128, c);
        ((((w >> c) | (x << r)) & mask) >> i) & 1 == (if i < n { if i + c < 128 { (w >> ((i + c) as u128)) & 1 } else { (x >> ((i + c - 128) as u128)) & 1 } } else { 0 }) })
{
    assert(0 < c && c < 128 && n < 128 && i < 128 ==> ((((w >> c) | (x << sub(128, c))) & sub(1u128 << n, 1)) >> i) & 1
        == (if i < n { if add(i, c) < 128 { (w >> add(i, c)) & 1 } else { (x >> sub(add(i, c), 128)) & 1 } } else { 0 })) by (bit_vector);
    assert(0 < c && c < 128 && i < 128 ==> ((((w >> c) | (x << sub(128, c))) & !0u128) >> i) & 1
        == (if add(i, c) < 128 { (w >> add(i, c)) & 1 } else { (x >> sub(add(i, c), 128)) & 1 })) by (bit_vector);
}
pub proof fn lemma_and_le(a: u128, m: u128)
    ensures a & m <= m
{ assert(a & m <= m) by (bit_vector); }
pub proof fn lemma_bit01(w: u128, i: u128)
    ensures (w >> i) & 1 == 0 || (w >> i) & 1 == 1
{ assert((w >> i) & 1 == 0 || (w >> i) & 1 == 1) by (bit_vector); }
pub proof fn lemma_bit_zero(i: u128)
    ensures (0u128 >> i) & 1 == 0
{ assert((0u128 >> i) & 1 == 0) by (bit_vector); }

/// the value of the stored bits: everything past the allocated words reads as zero
pub open spec fn bits_of(b: Seq<u128>) -> spec_fn(int) -> bool {
    |i: int| 0 <= i && i / 128 < b.len() && bitw(b[i / 128], i % 128)
}
/// largest stream the contracts cover: 2^60 bits (2^57 bytes)
pub open spec fn MAXBITS() -> int { 0x1000_0000_0000_0000 }

pub type Bits = spec_fn(int) -> bool;
/// bits `n` at position `p` hold the low `n` bits of `v`
pub open spec fn has_word(s: Bits, p: int, v: u128, n: int) -> bool {
    forall|j: int| p <= j < p + n ==> #[trigger] s(j) == bitw(v, j - p)
}
pub open spec fn same_below(a: Bits, b: Bits, n: int) -> bool {
    forall|i: int| i < n ==> #[trigger] a(i) == b(i)
}
//@ consts CHUNK_SIZE_IN_BITS NUM_OF_BITS_IN_BYTES
//@ type BitStream
//@ global
impl BitStream {
    pub open spec fn bits(&self) -> Bits { bits_of(self.binary@) }
    pub open spec fn nbits(&self) -> int { self.binary@.len() as int * 128 }
    pub open spec fn pos(&self) -> int { self.bit_cursor as int }
    /// the cursor never runs ahead of the allocated words
    pub open spec fn wf(&self) -> bool {
        &&& self.bit_cursor as int / 128 <= self.binary@.len()
        &&& self.binary@.len() * 128 <= MAXBITS() + 512
        &&& self.bit_cursor as int <= MAXBITS()
    }
}

//@ fn BitStream::chunk_index
//@ ret r
//@ spec
    requires self.bit_cursor as int <= 2 * MAXBITS(),
    ensures r as int == self.bit_cursor as int / 128,
//@ entry
    proof { assert(self.bit_cursor as int / 128 <= MAXBITS()); let b = self.bit_cursor; assert(b >> 7 == b / 128) by (bit_vector); }

//@ fn BitStream::chunk_bit_index
//@ ret r
//@ spec
    ensures r as int == self.bit_cursor as int % 128, r < 128
//@ entry
    proof { let b = self.bit_cursor; assert(b & 127 == b % 128) by (bit_vector); let u = b as usize; assert(u & 127 == (b % 128) as usize) by (bit_vector) requires u == b as usize; }

//@ fn BitStream::bit_cursor
//@ ret r
//@ spec
    ensures r == self.bit_cursor

//@ fn BitStream::set_bit_cursor
//@ spec
    ensures final(self).bit_cursor == idx, final(self).binary == old(self).binary, final(self).capacity == old(self).capacity

//@ fn BitStream::seek_start
//@ spec
    ensures final(self).bit_cursor == 0, final(self).binary == old(self).binary, final(self).capacity == old(self).capacity

//@ fn BitStream::new
//@ ret r
//@ spec
    ensures r.wf(), r.pos() == 0, r.binary@.len() == 0

//@ fn BitStream::capacity_upperbound
//@ ret r
//@ spec
    requires self.binary@.len() * 128 <= 2 * MAXBITS()
    ensures r as int == self.binary@.len() * 128

//@ fn BitStream::offset_bit_cursor
//@ spec
    requires 0 <= old(self).bit_cursor as int + offset as int <= 4 * MAXBITS(), old(self).bit_cursor as int <= 4 * MAXBITS()
    ensures final(self).bit_cursor as int == old(self).bit_cursor as int + offset as int,
        final(self).binary == old(self).binary,
        final(self).capacity == (if final(self).bit_cursor > old(self).capacity { final(self).bit_cursor } else { old(self).capacity })

//@ fn BitStream::allocate_if_needed
//@ spec
    ensures final(self).bit_cursor == old(self).bit_cursor,
        final(self).capacity == old(self).capacity,
        old(self).binary@.len() > chunk_idx ==> final(self).binary@ == old(self).binary@,
        old(self).binary@.len() <= chunk_idx ==> final(self).binary@ == old(self).binary@.push(0u128),
        final(self).bits() =~= old(self).bits(),
//@ exit
    proof {
        assert forall|i: int| #[trigger] self.bits()(i) == old(self).bits()(i) by { lemma_bit_zero((i % 128) as u128); }
    }

//@ fn BitStream::write_bits
//@ spec
    requires old(self).wf(), num_bits <= 128, old(self).pos() + num_bits <= MAXBITS(),
    ensures final(self).wf(),
        final(self).pos() == old(self).pos() + num_bits,
        final(self).pos() < final(self).nbits(),
        same_below(final(self).bits(), old(self).bits(), old(self).pos()),
        final(self).binary@.len() >= old(self).binary@.len(), grew(*final(self), *old(self)),
        exists|v: u128| call_ensures(<u128 as From<T>>::from, (val,), v) && #[trigger] has_word(final(self).bits(), old(self).pos(), v, num_bits as int),
        old(self).capacity <= MAXBITS() ==> final(self).capacity <= MAXBITS(),
//@ entry
    proof { lemma_mask_pos((self.pos() % 128) as u128); lemma_mask_forms((self.pos() % 128) as u128); }
//@ exit
    proof {
        let p = old(self).pos();
        let c = (p % 128) as u128;
        let k = p / 128;
        let ow = if k < old(self).binary@.len() { old(self).binary@[k] } else { 0u128 };
        let nw = (ow & sub(1u128 << c, 1)) | (bits << c);
        assert(self.binary@[k] == nw);
        assert forall|j: int| j < p implies #[trigger] self.bits()(j) == old(self).bits()(j) by {
            if 0 <= j && j / 128 == k { lemma_write_word(ow, bits, c, (j % 128) as u128); lemma_bit_zero((j % 128) as u128); }
        }
        assert forall|j: int| p <= j < p + num_bits implies #[trigger] self.bits()(j) == bitw(bits, j - p) by {
            if j / 128 == k { lemma_write_word(ow, bits, c, (j % 128) as u128); assert(sub((j % 128) as u128, c) == (j - p) as u128); }
            else { lemma_spill(bits, (128 - c) as u128, (j % 128) as u128); }
        }
        assert(has_word(self.bits(), p, bits, num_bits as int));
    }

//@ fn BitStream::write_bit
//@ spec
    requires old(self).wf(), old(self).pos() + 1 <= MAXBITS(),
    ensures final(self).wf(),
        final(self).pos() == old(self).pos() + 1,
        same_below(final(self).bits(), old(self).bits(), old(self).pos()),
        final(self).binary@.len() >= old(self).binary@.len(), grew(*final(self), *old(self)),
        final(self).bits()(old(self).pos()) == (val % 2 == 1),
        old(self).capacity <= MAXBITS() ==> final(self).capacity <= MAXBITS(),
//@ entry
    proof { lemma_mask_pos((self.pos() % 128) as u128); lemma_mask_forms((self.pos() % 128) as u128); }
//@ exit
    proof {
        let p = old(self).pos();
        let c = (p % 128) as u128;
        let k = p / 128;
        let ow = if k < old(self).binary@.len() { old(self).binary@[k] } else { 0u128 };
        let bb = (val as u128) & 1;
        let nw = (ow & sub(1u128 << c, 1)) | (bb << c);
        lemma_or_forms(ow & sub(1u128 << c, 1), c);
        assert(bb == 0 || bb == 1) by (bit_vector) requires bb == (val as u128) & 1;
        assert(self.binary@[k] == nw);
        assert forall|j: int| j < p implies #[trigger] self.bits()(j) == old(self).bits()(j) by {
            if 0 <= j && j / 128 == k { lemma_write_word(ow, bb, c, (j % 128) as u128); lemma_bit_zero((j % 128) as u128); }
        }
        lemma_write_word(ow, bb, c, c);
        assert(((val as u128) & 1) >> 0u128 & 1 == (val % 2) as u128) by (bit_vector);
    }

//@ fn BitStream::peek_bits
//@ ret r
//@ opt opt_map
//@ spec
    requires old(self).wf(), num_bits <= 128,
    ensures final(self).wf(),
        final(self).pos() == old(self).pos(),
        final(self).capacity == old(self).capacity,
        final(self).bits() =~= old(self).bits(),
        final(self).binary@.len() >= old(self).binary@.len(),
        final(self).binary@.len() > old(self).pos() / 128 + 1,
        final(self).nbits() <= imax(old(self).nbits(), old(self).pos() + 256),
        forall|i: int| 0 <= i < 128 ==> #[trigger] bitw(r, i) == (i < num_bits && old(self).bits()(old(self).pos() + i)),
        num_bits < 128 ==> r <= sub(1u128 << (num_bits as u128), 1),
//@ entry
    proof {
        if num_bits < 128 { lemma_mask_pos(num_bits as u128); lemma_mask_forms(num_bits as u128); }
        assert(sub(1u128 << 0u128, 1) == 0) by (bit_vector);
        assert(!0u128 >> 0u128 == !0u128) by (bit_vector);
    }
//@ exit
    proof {
        let p = old(self).pos();
        let c = (p % 128) as u128;
        let k = p / 128;
        let w0 = self.binary@[k];
        let w1 = self.binary@[k + 1];
        assert(0u128 | (w0 >> c) == w0 >> c) by (bit_vector);
        if num_bits < 128 { lemma_and_le(bits, sub(1u128 << (num_bits as u128), 1)); }
        assert forall|i: int| 0 <= i < 128 implies #[trigger] bitw(__vx_r, i) == (i < num_bits && old(self).bits()(p + i)) by {
            assert(self.bits()(p + i) == old(self).bits()(p + i));
            lemma_bit_zero(((p + i) % 128) as u128);
            if 128 - c < num_bits { lemma_read_two(w0, w1, c, num_bits as u128, i as u128); }
            else { lemma_read_lo(w0, c, num_bits as u128, i as u128); }
        }
    }

//@ fn BitStream::read_bits
//@ ret r
//@ spec
    requires old(self).wf(), bit_count <= 128, old(self).pos() + bit_count <= MAXBITS(),
    ensures final(self).wf(),
        final(self).pos() == old(self).pos() + bit_count,
        final(self).bits() =~= old(self).bits(),
        final(self).nbits() <= imax(old(self).nbits(), old(self).pos() + 256),
        final(self).pos() < final(self).nbits(),
        final(self).binary@.len() >= old(self).binary@.len(),
        forall|i: int| 0 <= i < 128 ==> #[trigger] bitw(r, i) == (i < bit_count && old(self).bits()(old(self).pos() + i)),
        bit_count < 128 ==> r <= sub(1u128 << (bit_count as u128), 1),

//@ fn BitStream::read_bit
//@ ret r
//@ spec
    requires old(self).wf(), old(self).pos() + 1 <= MAXBITS(),
    ensures final(self).wf(),
        final(self).bits() =~= old(self).bits(),
        final(self).binary@ == old(self).binary@,
        old(self).pos() / 128 < old(self).binary@.len() ==> final(self).pos() == old(self).pos() + 1,
        old(self).pos() / 128 >= old(self).binary@.len() ==> final(self).pos() == old(self).pos(),
        r == (if old(self).bits()(old(self).pos()) { 1u128 } else { 0u128 }),
//@ entry
    proof { lemma_bit01(self.binary@[self.pos() / 128], (self.pos() % 128) as u128); }

//@ global
/* ---- Rice codes ---- */
pub open spec fn mag(e: i16) -> int { if e < 0 { -(e as int) } else { e as int } }
pub open spec fn rice_q(k: int, e: i16) -> int { ((mag(e) as u16) >> (k as u16)) as int }
pub open spec fn rice_r(k: int, e: i16) -> u16 { (mag(e) as u16) & sub(1u16 << (k as u16), 1) }
pub open spec fn rice_len(k: int, e: i16) -> int { rice_q(k, e) + 2 + k }
/// at position p: sign, unary quotient, a zero, remainder of k bits (lowest bit first)
pub open spec fn has_rice(s: Bits, p: int, k: int, e: i16) -> bool {
    &&& s(p) == (e < 0)
    &&& forall|j: int| p + 1 <= j < p + 1 + rice_q(k, e) ==> #[trigger] s(j)
    &&& !s(p + 1 + rice_q(k, e))
    &&& has_word(s, p + 2 + rice_q(k, e), rice_r(k, e) as u128, k)
}
pub proof fn lemma_ones(i: u128)
    requires i < 128
    ensures (!0u128 >> i) & 1 == 1
{ assert(i < 128 ==> (!0u128 >> i) & 1 == 1) by (bit_vector); }
pub proof fn lemma_sign(e: i16)
    ensures (e >> 15) & 1 == (if e < 0 { 1i16 } else { 0i16 })
{ assert((e >> 15) & 1 == (if e < 0 { 1i16 } else { 0i16 })) by (bit_vector); }
pub proof fn lemma_pow_u16(k: u16)
    requires k <= 15
    ensures (1u16 << k) >= 1
{ assert(k <= 15 ==> (1u16 << k) >= 1) by (bit_vector); }
pub proof fn lemma_rice_q_bound(m: u16, k: u16)
    requires k <= 15
    ensures (m >> k) <= m, k >= 1 ==> (m >> k) <= 0x7fff
{ assert((m >> k) <= m) by (bit_vector); assert(k >= 1 && k <= 15 ==> (m >> k) <= 0x7fff) by (bit_vector); }

//@ fn BitStream::write_compressed
//@ spec
    requires old(self).wf(), 0 <= exponent <= 15, old(self).pos() + rice_len(exponent as int, entropy) <= MAXBITS(),
    ensures final(self).wf(),
        final(self).pos() == old(self).pos() + rice_len(exponent as int, entropy),
        final(self).pos() < final(self).nbits(),
        same_below(final(self).bits(), old(self).bits(), old(self).pos()),
        has_rice(final(self).bits(), old(self).pos(), exponent as int, entropy),
        final(self).binary@.len() >= old(self).binary@.len(), grew(*final(self), *old(self)),
        old(self).capacity <= MAXBITS() ==> final(self).capacity <= MAXBITS(),
//@ entry
    let ghost e0 = entropy; let ghost k0 = exponent as int; let ghost p0 = self.pos(); let ghost q0 = rice_q(k0, e0);
    let ghost s0 = *self;
    proof { lemma_sign(entropy); lemma_pow_u16(exponent as u16); lemma_rice_q_bound(mag(e0) as u16, exponent as u16); lemma_split_u16(mag(e0) as u16, exponent as u16); }
//@ loop 0
    invariant_except_break
        self.pos() == p0 + 1 + (q0 - quotient),
    invariant
        self.wf(), quotient <= q0, q0 == rice_q(k0, e0), p0 + q0 + 2 + k0 <= MAXBITS(), 0 <= k0 <= 15,
        same_below(self.bits(), s0.bits(), p0),
        self.bits()(p0) == (e0 < 0),
        forall|j: int| p0 + 1 <= j < self.pos() ==> #[trigger] self.bits()(j),
        self.binary@.len() >= s0.binary@.len(), self.nbits() <= imax(s0.nbits(), self.pos() + 256),
        s0.capacity <= MAXBITS() ==> self.capacity <= MAXBITS(),
    ensures
        self.pos() == p0 + 1 + q0,
    decreases quotient
//@ loop 0 begin
    let ghost s1 = *self;
    proof { assert forall|i: int| 0 <= i < 128 implies #[trigger] bitw(!0u128, i) by { lemma_ones(i as u128); } }
//@ loop 0 after
    let ghost s2 = *self;
//@ exit
    proof {
        assert(s2.bits()(p0) == self.bits()(p0));
        assert forall|j: int| p0 + 1 <= j < p0 + 1 + q0 implies #[trigger] self.bits()(j) by { assert(s2.bits()(j)); }
    }

//@ global
/// the word whose low n bits are those at position p
pub open spec fn word_is(s: Bits, p: int, n: int, w: u128) -> bool { forall|i: int| 0 <= i < 128 ==> #[trigger] bitw(w, i) == (i < n && s(p + i)) }
pub open spec fn word_of(s: Bits, p: int, n: int) -> u128 { choose|w: u128| word_is(s, p, n, w) }
pub proof fn lemma_word_of(s: Bits, p: int, n: int, w: u128)
    requires word_is(s, p, n, w)
    ensures w == word_of(s, p, n)
{
    let v = word_of(s, p, n);
    assert(word_is(s, p, n, v));
    assert forall|i: int| 0 <= i < 128 implies bitw(w, i) == #[trigger] bitw(v, i) by { assert(bitw(w, i) == (i < n && s(p + i))); }
    lemma_ext(w, v);
}
/// a 16-bit value comes back with its sign
pub proof fn lemma_word16(s: Bits, p: int, x: i16)
    requires has_word(s, p, (x as u16) as u128, 16)
    ensures word_of(s, p, 16) as i16 == x
{
    let w = (x as u16) as u128;
    assert forall|i: int| 0 <= i < 128 implies #[trigger] bitw(w, i) == (i < 16 && s(p + i)) by {
        let j = i as u128;
        assert(j >= 16 && j < 128 ==> ((((x as u16) as u128) >> j) & 1) == 0) by (bit_vector);
        if i < 16 { assert(s(p + i) == bitw(w, p + i - p)); }
    }
    lemma_word_of(s, p, 16, w);
    assert(((x as u16) as u128) as i16 == x) by (bit_vector);
}

//@ fn BitStream::peek
//@ ret r
//@ spec
    requires old(self).wf(), vstd::layout::size_of::<T>() <= 16,
    ensures final(self).wf(),
        final(self).pos() == old(self).pos(),
        final(self).capacity == old(self).capacity,
        final(self).bits() =~= old(self).bits(),
        final(self).binary@.len() >= old(self).binary@.len(),
        final(self).binary@.len() > old(self).pos() / 128 + 1,
        final(self).nbits() <= imax(old(self).nbits(), old(self).pos() + 256),
        forall|i: int| 0 <= i < 128 ==> #[trigger] bitw(r, i) == (i < vstd::layout::size_of::<T>() * 8 && old(self).bits()(old(self).pos() + i)),

//@ fn BitStream::read
//@ ret r
//@ spec
    requires old(self).wf(), vstd::layout::size_of::<T>() <= 16, old(self).pos() + 128 <= MAXBITS(),
    ensures final(self).wf(),
        final(self).pos() == old(self).pos() + vstd::layout::size_of::<T>() * 8,
        final(self).bits() =~= old(self).bits(),
        final(self).nbits() <= imax(old(self).nbits(), old(self).pos() + 256),
        final(self).binary@.len() >= old(self).binary@.len(),
        final(self).capacity as int <= (if old(self).capacity as int > final(self).pos() { old(self).capacity as int } else { final(self).pos() }),
        forall|i: int| 0 <= i < 128 ==> #[trigger] bitw(r, i) == (i < vstd::layout::size_of::<T>() * 8 && old(self).bits()(old(self).pos() + i)),
        r == word_of(old(self).bits(), old(self).pos(), vstd::layout::size_of::<T>() as int * 8),
//@ exit
    proof { lemma_word_of(old(self).bits(), old(self).pos(), vstd::layout::size_of::<T>() as int * 8, __vx_r); }

//@ fn BitStream::write
//@ spec
    requires old(self).wf(), vstd::layout::size_of::<T>() <= 16, old(self).pos() + 128 <= MAXBITS(),
    ensures final(self).wf(),
        final(self).pos() == old(self).pos() + vstd::layout::size_of::<T>() * 8,
        final(self).pos() < final(self).nbits(),
        same_below(final(self).bits(), old(self).bits(), old(self).pos()),
        final(self).binary@.len() >= old(self).binary@.len(), grew(*final(self), *old(self)),
        exists|v: u128| call_ensures(<u128 as From<T>>::from, (val,), v) && #[trigger] has_word(final(self).bits(), old(self).pos(), v, vstd::layout::size_of::<T>() as int * 8),
        old(self).capacity <= MAXBITS() ==> final(self).capacity <= MAXBITS(),

//@ global
pub proof fn lemma_mask_step(a: u128, b: u128, n: u128)
    requires n < 128, a & sub(1u128 << n, 1) == b & sub(1u128 << n, 1), (a >> n) & 1 == (b >> n) & 1
    ensures n < 127 ==> a & sub(1u128 << add(n, 1), 1) == b & sub(1u128 << add(n, 1), 1),
        n == 127 ==> a == b
{
    assert(n < 127 && a & sub(1u128 << n, 1) == b & sub(1u128 << n, 1) && (a >> n) & 1 == (b >> n) & 1
        ==> a & sub(1u128 << add(n, 1), 1) == b & sub(1u128 << add(n, 1), 1)) by (bit_vector);
    assert(a & sub(1u128 << 127, 1) == b & sub(1u128 << 127, 1) && (a >> 127) & 1 == (b >> 127) & 1 ==> a == b) by (bit_vector);
}
pub proof fn lemma_ext_upto(a: u128, b: u128, n: int)
    requires 0 <= n < 128, forall|i: int| 0 <= i < 128 ==> bitw(a, i) == #[trigger] bitw(b, i)
    ensures a & sub(1u128 << (n as u128), 1) == b & sub(1u128 << (n as u128), 1)
    decreases n
{
    if n == 0 {
        assert(a & sub(1u128 << 0u128, 1) == b & sub(1u128 << 0u128, 1)) by (bit_vector);
    } else {
        lemma_ext_upto(a, b, n - 1);
        lemma_bit01(a, (n - 1) as u128); lemma_bit01(b, (n - 1) as u128);
        assert(bitw(a, n - 1) == bitw(b, n - 1));
        lemma_mask_step(a, b, (n - 1) as u128);
    }
}
/// two words with the same bits are equal
pub proof fn lemma_ext(a: u128, b: u128)
    requires forall|i: int| 0 <= i < 128 ==> bitw(a, i) == #[trigger] bitw(b, i)
    ensures a == b
{
    lemma_ext_upto(a, b, 127);
    lemma_bit01(a, 127); lemma_bit01(b, 127);
    assert(bitw(a, 127) == bitw(b, 127));
    lemma_mask_step(a, b, 127);
}
pub proof fn lemma_all_ones(v: u128)
    requires forall|i: int| 0 <= i < 128 ==> #[trigger] bitw(v, i)
    ensures v == !0u128
{
    assert forall|i: int| 0 <= i < 128 implies bitw(v, i) == #[trigger] bitw(!0u128, i) by { assert(bitw(v, i)); lemma_ones(i as u128); }
    lemma_ext(v, !0u128);
}
pub proof fn lemma_rice_join(m: u16, k: u16)
    requires k <= 15
    ensures (((m >> k) as i32) << k) | ((m & sub(1u16 << k, 1)) as i32) == m as i32, (((m >> k) as i32) << k) + (m & sub(1u16 << k, 1)) == m, 0 <= ((m >> k) as i32) << k
{
    assert(k <= 15 ==> add(((m >> k) as i32) << k, (m & sub(1u16 << k, 1)) as i32) == m as i32 && 0 <= ((m >> k) as i32) << k && ((m >> k) as i32) << k <= 0xffff && (m & sub(1u16 << k, 1)) <= 0xffff) by (bit_vector);
    assert(k <= 15 ==> (((m >> k) as i32) << k) | ((m & sub(1u16 << k, 1)) as i32) == m as i32) by (bit_vector);
}
/// the remainder field as read back
pub proof fn lemma_remainder(v: u128, m: u16, k: int)
    requires 0 <= k <= 15,
        forall|i: int| k <= i < 128 ==> !#[trigger] bitw(v, i),
        forall|i: int| 0 <= i < k ==> #[trigger] bitw(v, i) == bitw((m & sub(1u16 << (k as u16), 1)) as u128, i),
    ensures v == (m & sub(1u16 << (k as u16), 1)) as u128
{
    let r = (m & sub(1u16 << (k as u16), 1)) as u128;
    let kk = k as u16;
    assert forall|i: int| 0 <= i < 128 implies bitw(v, i) == #[trigger] bitw(r, i) by {
        let j = i as u128;
        assert(kk <= 15 && j >= (kk as u128) && j < 128 ==> ((((m & sub(1u16 << kk, 1)) as u128) >> j) & 1) == 0) by (bit_vector);
        if i < k { assert(bitw(v, i) == bitw(r, i)); } else { assert(!bitw(v, i)); }
    }
    lemma_ext(v, r);
}
pub proof fn lemma_mask_15(k: u128)
    requires k <= 15
    ensures sub(1u128 << k, 1) <= 0x7fff
{ assert(k <= 15 ==> sub(1u128 << k, 1) <= 0x7fff) by (bit_vector); }
/// nothing is stored past 2^58 bits (2^55 bytes)
pub open spec fn SILENT() -> int { 0x400_0000_0000_0000 }
pub open spec fn silent(s: Bits) -> bool { forall|j: int| j >= SILENT() ==> !#[trigger] s(j) }
pub open spec fn rice_here(s: Bits, p: int, k: int) -> bool { exists|e: i16| has_rice(s, p, k, e) }

//@ global
/// a number is its upper part shifted back and its lower part
pub proof fn lemma_split_u16(m: u16, e: u16)
    requires e <= 15
    ensures (m >> e) << e <= m, m - ((m >> e) << e) == m & sub(1u16 << e, 1), m % (1u16 << e) == m & sub(1u16 << e, 1), m / (1u16 << e) == m >> e, 1u16 << e > 0
{
    assert(e <= 15 ==> (m >> e) << e <= m && sub(m, (m >> e) << e) == m & sub(1u16 << e, 1)) by (bit_vector);
    assert(e <= 15 ==> 1u16 << e > 0) by (bit_vector);
    lemma_split_div(m, e);
}
pub proof fn lemma_split_div(m: u16, e: u16)
    requires e <= 15
    ensures m % (1u16 << e) == m & sub(1u16 << e, 1), m / (1u16 << e) == m >> e
{
    if e == 0 { assert(m % (1u16 << 0) == m & sub(1u16 << 0, 1) && m / (1u16 << 0) == m >> 0) by (bit_vector); }
    if e == 1 { assert(m % (1u16 << 1) == m & sub(1u16 << 1, 1) && m / (1u16 << 1) == m >> 1) by (bit_vector); }
    if e == 2 { assert(m % (1u16 << 2) == m & sub(1u16 << 2, 1) && m / (1u16 << 2) == m >> 2) by (bit_vector); }
    if e == 3 { assert(m % (1u16 << 3) == m & sub(1u16 << 3, 1) && m / (1u16 << 3) == m >> 3) by (bit_vector); }
    if e == 4 { assert(m % (1u16 << 4) == m & sub(1u16 << 4, 1) && m / (1u16 << 4) == m >> 4) by (bit_vector); }
    if e == 5 { assert(m % (1u16 << 5) == m & sub(1u16 << 5, 1) && m / (1u16 << 5) == m >> 5) by (bit_vector); }
    if e == 6 { assert(m % (1u16 << 6) == m & sub(1u16 << 6, 1) && m / (1u16 << 6) == m >> 6) by (bit_vector); }
    if e == 7 { assert(m % (1u16 << 7) == m & sub(1u16 << 7, 1) && m / (1u16 << 7) == m >> 7) by (bit_vector); }
    if e == 8 { assert(m % (1u16 << 8) == m & sub(1u16 << 8, 1) && m / (1u16 << 8) == m >> 8) by (bit_vector); }
    if e == 9 { assert(m % (1u16 << 9) == m & sub(1u16 << 9, 1) && m / (1u16 << 9) == m >> 9) by (bit_vector); }
    if e == 10 { assert(m % (1u16 << 10) == m & sub(1u16 << 10, 1) && m / (1u16 << 10) == m >> 10) by (bit_vector); }
    if e == 11 { assert(m % (1u16 << 11) == m & sub(1u16 << 11, 1) && m / (1u16 << 11) == m >> 11) by (bit_vector); }
    if e == 12 { assert(m % (1u16 << 12) == m & sub(1u16 << 12, 1) && m / (1u16 << 12) == m >> 12) by (bit_vector); }
    if e == 13 { assert(m % (1u16 << 13) == m & sub(1u16 << 13, 1) && m / (1u16 << 13) == m >> 13) by (bit_vector); }
    if e == 14 { assert(m % (1u16 << 14) == m & sub(1u16 << 14, 1) && m / (1u16 << 14) == m >> 14) by (bit_vector); }
    if e == 15 { assert(m % (1u16 << 15) == m & sub(1u16 << 15, 1) && m / (1u16 << 15) == m >> 15) by (bit_vector); }
}
//@ fn BitStream::read_compressed
//@ ret r
//@ opt let_type quotient i32
//@ opt let_type zero_bit_pos i128
//@ opt let_type bit_chunk u128
//@ attr
#[verifier::spinoff_prover]
//@ spec
    requires old(self).wf(), 0 <= exponent <= 15,
        old(self).pos() + 0x1_0000 <= MAXBITS(),
        old(self).nbits() + 0x1_0000 <= MAXBITS(),
    ensures final(self).wf(),
        final(self).bits() =~= old(self).bits(),
        final(self).nbits() >= old(self).nbits(),
        forall|e: i16| #[trigger] has_rice(old(self).bits(), old(self).pos(), exponent as int, e) && old(self).pos() < old(self).nbits() ==>
            r == e && final(self).pos() == old(self).pos() + rice_len(exponent as int, e),
        old(self).pos() < final(self).pos(),
        final(self).pos() <= imax(old(self).pos(), old(self).nbits()) + 18,
        silent(old(self).bits()) ==> final(self).pos() <= imax(old(self).pos(), SILENT()) + 18,
        final(self).nbits() <= imax(old(self).nbits(), final(self).pos() + 256),
//@ entry
    let ghost p0 = self.pos(); let ghost b0 = self.bits(); let ghost k0 = exponent as int; let ghost n0 = self.nbits();
//@ loop 0
    invariant
        self.wf(), self.bits() =~= b0, p0 <= self.pos(), rice_here(b0, p0, k0) && p0 < n0 ==> self.pos() == p0 + 1 + quotient && 0 <= quotient <= 0x8000, self.pos() >= p0 + (if p0 < n0 { 1int } else { 0 }),
        p0 >= 0, p0 + 0x1_0000 <= MAXBITS(), n0 + 0x1_0000 <= MAXBITS(), 0 <= k0 <= 15,
        self.pos() <= imax(p0 + 1, n0), silent(b0) ==> self.pos() <= imax(p0 + 1, SILENT()), n0 <= self.nbits() <= imax(n0, self.pos() + 256),
        forall|j: int| j >= n0 ==> !#[trigger] b0(j),
        forall|j: int| p0 + 1 <= j < self.pos() ==> #[trigger] b0(j),
    ensures
        forall|i: int| 0 <= i < 128 ==> #[trigger] bitw(bit_chunk, i) == b0(self.pos() + i),
        bit_chunk != !0u128,
        self.binary@.len() > self.pos() / 128 + 1,
    decreases n0 + 128 - self.pos()
//@ loop 0 begin
    let ghost s1 = *self;
//@ before self.offset_bit_cursor(128)
    proof {
        assert(bit_chunk == !0u128);
        assert forall|j: int| p0 + 1 <= j < self.pos() + 128 implies #[trigger] b0(j) by {
            if j >= self.pos() { lemma_ones((j - self.pos()) as u128); assert(bitw(bit_chunk, j - self.pos())); }
        }
        assert(b0(self.pos() + 127));
        assert(self.pos() + 127 < n0);
        if rice_here(b0, p0, k0) && p0 < n0 {
            let e = choose|e: i16| has_rice(b0, p0, k0, e);
            lemma_rice_q_bound(mag(e) as u16, k0 as u16);
            assert(!b0(p0 + 1 + rice_q(k0, e)));
            assert(quotient + 128 <= 0x8000);
        }
    }
//@ loop 1
    invariant
        0 <= zero_bit_pos <= 128,
        zero_bit_pos < 128 ==> bit_chunk == c0 >> (zero_bit_pos as u128),
        forall|i: int| 0 <= i < zero_bit_pos ==> #[trigger] bitw(c0, i),
    decreases 128 - zero_bit_pos
//@ loop 1 before
    let ghost c0 = bit_chunk;
    proof { assert(c0 >> 0u128 == c0) by (bit_vector); }
//@ loop 1 begin
    proof {
        let z = zero_bit_pos as u128;
        lemma_bit01(c0, z);
        assert(z < 127 ==> (c0 >> z) >> 1u128 == c0 >> add(z, 1)) by (bit_vector);
        assert(bitw(c0, zero_bit_pos as int));
    }
//@ loop 1 after
    proof {
        if zero_bit_pos == 128 { lemma_all_ones(c0); }
        lemma_bit01(c0, zero_bit_pos as u128);
        if zero_bit_pos == 127 && bitw(c0, 127) { lemma_all_ones(c0); }
        assert(!bitw(c0, zero_bit_pos as int));
        assert(!b0(self.pos() + zero_bit_pos));
        assert forall|j: int| p0 + 1 <= j < self.pos() + zero_bit_pos implies #[trigger] b0(j) by {
            if j >= self.pos() { assert(bitw(c0, j - self.pos())); }
        }
    }
    proof { if zero_bit_pos > 0 { assert(bitw(c0, zero_bit_pos - 1)); assert(b0(self.pos() + zero_bit_pos - 1)); } assert(self.pos() + zero_bit_pos <= imax(p0 + 1, n0)); assert(silent(b0) ==> self.pos() + zero_bit_pos <= imax(p0 + 1, SILENT())); }
    let ghost qq = self.pos() + zero_bit_pos as int - p0 - 1;
    proof {
        assert forall|e: i16| #[trigger] has_rice(b0, p0, k0, e) && p0 < n0 implies rice_q(k0, e) == qq by {
            lemma_rice_q_bound(mag(e) as u16, k0 as u16);
            assert(!b0(p0 + 1 + rice_q(k0, e)));
            assert(!b0(p0 + 1 + qq));
        }
        if rice_here(b0, p0, k0) && p0 < n0 {
            let e = choose|e: i16| has_rice(b0, p0, k0, e);
            lemma_rice_q_bound(mag(e) as u16, k0 as u16);
        }
    }
//@ before let remainder =
    let ghost pr = self.pos();
    proof { lemma_mask_15(k0 as u128); }
//@ exit
    proof {
        let v = (remainder as int) as u128;
        assert forall|i: int| k0 <= i < 128 implies !#[trigger] bitw(v, i) by { }
        assert(p0 < n0 ==> pr == p0 + 2 + qq);
        assert forall|e: i16| #[trigger] has_rice(b0, p0, k0, e) && p0 < n0 implies __vx_r == e by {
            let m = mag(e) as u16;
            assert forall|i: int| 0 <= i < k0 implies #[trigger] bitw(v, i) == bitw(rice_r(k0, e) as u128, i) by {
                assert(b0(p0 + 2 + qq + i) == bitw(rice_r(k0, e) as u128, i));
            }
            lemma_remainder(v, m, k0);
            lemma_rice_join(m, exponent as u16);
        }
    }
