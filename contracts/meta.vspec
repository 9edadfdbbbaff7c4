// Contracts for the frame metadata containers
//@ file src/collections/bitvec.rs
//@ type BitVec
//@ global
pub open spec fn bit64(w: u64, i: int) -> bool { 0 <= i < 64 && (w >> (i as u64)) & 1u64 == 1u64 }
impl BitVec {
    pub open spec fn n(&self) -> int { self.bit_cursor as int }
    pub open spec fn at(&self, i: int) -> bool { 0 <= i && i / 64 < self.binary@.len() && bit64(self.binary@[i / 64], i % 64) }
    pub open spec fn view(&self) -> Seq<bool> { Seq::new(self.n() as nat, |i: int| self.at(i)) }
    pub open spec fn wf(&self) -> bool { self.n() <= 64 * self.binary@.len() && self.n() <= 0xffff_ffff && 64 * self.binary@.len() <= 0xffff_ffff + 64 }
}
pub proof fn lemma_set64(w: u64, b: u64, c: u64, i: u64)
    requires c < 64, i < 64, b <= 1
    ensures ((((w & !(1u64 << c)) | (b << c)) >> i) & 1) == (if i == c { b } else { (w >> i) & 1 })
{
    assert(c < 64 && i < 64 && b <= 1 ==> ((((w & !(1u64 << c)) | (b << c)) >> i) & 1) == (if i == c { b } else { (w >> i) & 1 })) by (bit_vector);
}
pub proof fn lemma_and1(b: u64)
    ensures b & 1 == b % 2, b & 1 <= 1
{ assert(b & 1 == b % 2) by (bit_vector); assert(b & 1 <= 1) by (bit_vector); }
pub proof fn lemma_bit64_01(w: u64, i: u64)
    ensures (w >> i) & 1 == 0 || (w >> i) & 1 == 1
{ assert((w >> i) & 1 == 0 || (w >> i) & 1 == 1) by (bit_vector); }
pub proof fn lemma_zero64(i: u64)
    ensures (0u64 >> i) & 1 == 0
{ assert((0u64 >> i) & 1 == 0) by (bit_vector); }

//@ fn BitVec::new
//@ ret r
//@ spec
    ensures r.wf(), r.n() == 0, r.binary@.len() == 0

//@ fn BitVec::clear
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).n() == 0

//@ fn BitVec::len
//@ ret r
//@ spec
    requires self.n() <= 0xffff_ffff_ffff
    ensures r as int == self.n()

//@ fn BitVec::capacity
//@ ret r
//@ spec
    requires self.binary@.len() * 64 <= 0xffff_ffff_ffff
    ensures r as int == self.binary@.len() * 64

//@ fn BitVec::truncate
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).binary == old(self).binary,
        final(self).n() == (if len < old(self).n() { len as int } else { old(self).n() }),
        len <= old(self).n() ==> final(self)@ =~= old(self)@.take(len as int),

//@ fn BitVec::chunk_index
//@ ret r
//@ spec
    requires idx <= 0xffff_ffff_ffff_ffff
    ensures r as int == idx as int / 64
//@ entry
    proof { assert(idx >> 6 == idx / 64) by (bit_vector); }

//@ fn BitVec::chunk_bit_index
//@ ret r
//@ spec
    ensures r as int == idx as int % 64, r < 64
//@ entry
    proof { assert(idx & 63 == idx % 64) by (bit_vector); }

//@ fn BitVec::cursor_index_pair
//@ ret r
//@ spec
    requires self.n() <= 0xffff_ffff_ffff
    ensures r.0 as int == self.n() / 64, r.1 as int == self.n() % 64, r.1 < 64

//@ fn BitVec::offset_cursor
//@ spec
    requires 0 <= old(self).n() + offset, old(self).n() <= 0xffff_ffff_ffff
    ensures final(self).n() == old(self).n() + offset, final(self).binary == old(self).binary

//@ fn BitVec::push
//@ spec
    requires old(self).wf(), old(self).n() < 0xffff_ffff
    ensures final(self).wf(),
        final(self).n() == old(self).n() + 1,
        final(self)@ =~= old(self)@.push(bit % 2 == 1),
        final(self).binary@.len() <= (if old(self).binary@.len() * 64 > old(self).n() { old(self).binary@.len() as int } else { old(self).n() / 64 + 1 }),
//@ entry
    proof { lemma_and1(bit); }
    let ghost b0 = bit;
//@ exit
    proof {
        let n = old(self).n();
        let c = (n % 64) as u64;
        let k = n / 64;
        let ow = if k < old(self).binary@.len() { old(self).binary@[k] } else { 0u64 };
        assert(bit == 0 ==> (ow & !(1u64 << c)) | (bit << c) == ow & !(1u64 << c)) by (bit_vector);
        assert(c < 64 && bit == 1 ==> (ow & !(1u64 << c)) | (bit << c) == ow | (1u64 << c)) by (bit_vector);
        assert(self.binary@[k] == (ow & !(1u64 << c)) | (bit << c));
        assert forall|i: int| 0 <= i <= n implies #[trigger] self.at(i) == (if i == n { b0 % 2 == 1 } else { old(self).at(i) }) by {
            lemma_set64(ow, bit, c, (i % 64) as u64);
            lemma_zero64((i % 64) as u64);
        }
    }

//@ fn BitVec::get
//@ ret r
//@ spec
    ensures r == (if self.at(idx as int) { 1u64 } else { 0u64 })
//@ entry
    proof { lemma_bit64_01(self.binary@[idx as int / 64], (idx as int % 64) as u64); }

//@ fn BitVec::set
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).n() == old(self).n(),
        idx < old(self).n() ==> final(self)@ =~= old(self)@.update(idx as int, bit % 2 == 1),
        idx >= 64 * old(self).binary@.len() ==> final(self)@ =~= old(self)@,
//@ entry
    proof { lemma_and1(bit); }
//@ exit
    proof {
        let c = (idx as int % 64) as u64;
        let k = idx as int / 64;
        let ow = old(self).binary@[k];
        if k < old(self).binary@.len() {
            let bb = bit & 1;
            assert(bb == 0 || bb == 1) by (bit_vector) requires bb == bit & 1;
            assert((ow & !(1u64 << c)) | (0u64 << c) == ow & !(1u64 << c) && (ow & !(1u64 << c)) | (1u64 << c) == ow | (1u64 << c)) by (bit_vector) requires c < 64;
            assert(self.binary@[k] == (ow & !(1u64 << c)) | (bb << c));
            assert forall|i: int| 0 <= i < self.n() implies #[trigger] self.at(i) == (if i == idx { bit % 2 == 1 } else { old(self).at(i) }) by {
                lemma_set64(ow, bit & 1, c, (i % 64) as u64);
            }
        }
    }

// what `iter` gives at the place `vx_p` (rule R33)
//@ fn BitVec::iter
//@ opt map_range usize
//@ ret r
//@ spec
    requires self.wf()
    ensures r == (if vx_p < self@.len() { Some(if self@[vx_p as int] { 1u64 } else { 0u64 }) } else { None })

//@ file src/collections/nibble_list.rs
//@ type NibbleList
//@ global
pub open spec fn nib(w: u8, h: int) -> u8 { if h == 0 { w & 0x0f } else { (w >> 4) & 0x0f } }
impl NibbleList {
    pub open spec fn n(&self) -> int { self.nibble_count as int }
    pub open spec fn at(&self, i: int) -> u8 { if 0 <= i && i / 2 < self.data@.len() { nib(self.data@[i / 2], i % 2) } else { 0 } }
    pub open spec fn view(&self) -> Seq<u8> { Seq::new(self.n() as nat, |i: int| self.at(i)) }
    /// exactly the bytes needed, and the unused half of the last byte is zero
    pub open spec fn wf(&self) -> bool {
        &&& self.data@.len() == (self.n() + 1) / 2
        &&& self.n() % 2 == 1 ==> nib(self.data@[self.n() / 2], 1) == 0
    }
}
pub proof fn lemma_nib(w: u8, v: u8)
    requires v <= 15
    ensures nib(w & 0x0f, 1) == 0, nib(w & 0x0f, 0) == nib(w, 0),
        nib(0u8 | (v << 0u32), 0) == v, nib(0u8 | (v << 0u32), 1) == 0,
        nib(w, 1) == 0 ==> nib(w | (v << 4u32), 1) == v && nib(w | (v << 4u32), 0) == nib(w, 0),
        nib((w & 0xf0) | (v << 0u32), 0) == v, nib((w & 0xf0) | (v << 0u32), 1) == nib(w, 1),
        nib((w & 0x0f) | (v << 4u32), 1) == v, nib((w & 0x0f) | (v << 4u32), 0) == nib(w, 0),
{
    assert(((w & 0x0f) >> 4) & 0x0f == 0) by (bit_vector);
    assert((w & 0x0f) & 0x0f == w & 0x0f) by (bit_vector);
    assert(v <= 15 ==> (0u8 | (v << 0u32)) & 0x0f == v && ((0u8 | (v << 0u32)) >> 4) & 0x0f == 0) by (bit_vector);
    assert(v <= 15 && (w >> 4) & 0x0f == 0 ==> ((w | (v << 4u32)) >> 4) & 0x0f == v && (w | (v << 4u32)) & 0x0f == w & 0x0f) by (bit_vector);
    assert(v <= 15 ==> ((w & 0xf0) | (v << 0u32)) & 0x0f == v && (((w & 0xf0) | (v << 0u32)) >> 4) & 0x0f == (w >> 4) & 0x0f) by (bit_vector);
    assert(v <= 15 ==> (((w & 0x0f) | (v << 4u32)) >> 4) & 0x0f == v && ((w & 0x0f) | (v << 4u32)) & 0x0f == w & 0x0f) by (bit_vector);
}
//@ fn NibbleList::new
//@ ret r
//@ spec
    ensures r.wf(), r.n() == 0

//@ fn NibbleList::len
//@ ret r
//@ spec
    ensures r as int == self.n()

//@ fn NibbleList::is_empty
//@ ret r
//@ spec
    ensures r == (self.n() == 0)

//@ fn NibbleList::push
//@ spec
    requires old(self).wf(), val <= 15, old(self).n() < 0xffff_ffff
    ensures final(self).wf(), final(self).n() == old(self).n() + 1, final(self)@ =~= old(self)@.push(val)
//@ exit
    proof {
        let n = old(self).n();
        let ow = if n / 2 < old(self).data@.len() { old(self).data@[n / 2] } else { 0u8 };
        lemma_nib(ow, val);
        assert(val << 0u32 == val && 0u8 | val == val) by (bit_vector);
        assert forall|i: int| 0 <= i <= n implies #[trigger] self.at(i) == (if i == n { val } else { old(self).at(i) }) by { }
    }

//@ fn NibbleList::get
//@ ret r
//@ spec
    ensures r == self.at(idx as int), r <= 15
//@ entry
    proof { let w = self.data@[idx as int / 2]; assert(w & 0x0f <= 15) by (bit_vector); assert((w >> 4) & 0x0f <= 15) by (bit_vector); assert((w >> 0u8) & 0x0f == w & 0x0f) by (bit_vector); assert((w >> 4) & 0x0f == w >> 4) by (bit_vector); }

//@ fn NibbleList::set
//@ spec
    requires old(self).wf(), val <= 15, idx < old(self).n()
    ensures final(self).wf(), final(self)@ =~= old(self)@.update(idx as int, val)
//@ exit
    proof {
        let w = old(self).data@[idx as int / 2];
        lemma_nib(w, val);
        assert(0u8 | 0xf0u8 == 0xf0u8 && 0x0fu8 | 0u8 == 0x0fu8) by (bit_vector);
        assert forall|i: int| 0 <= i < old(self).n() implies #[trigger] self.at(i) == (if i == idx { val } else { old(self).at(i) }) by { }
    }

//@ fn NibbleList::clear
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= Seq::<u8>::empty()

// what `iter` gives at the place `vx_p` (rule R33)
//@ fn NibbleList::iter
//@ opt map_range usize
//@ ret r
//@ spec
    requires self.wf()
    ensures r == (if vx_p < self@.len() { Some(self@[vx_p as int]) } else { None })

//@ fn NibbleList::truncate
//@ spec
    requires old(self).wf()
    ensures final(self).wf(),
        final(self).n() == (if len < old(self).n() { len as int } else { old(self).n() }),
        len <= old(self).n() ==> final(self)@ =~= old(self)@.take(len as int),
        len > old(self).n() ==> final(self)@ =~= old(self)@,
//@ exit
    proof {
        if len < old(self).n() {
            lemma_nib(old(self).data@[len as int / 2], 0);
            assert forall|i: int| 0 <= i < len implies #[trigger] self.at(i) == old(self).at(i) by { }
        }
    }
