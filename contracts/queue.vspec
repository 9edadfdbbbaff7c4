// Contracts for the fixed-capacity double-ended queue
//@ file src/collections/queue.rs
//@ type FixedRingBuffer
//@ global
pub assume_specification [u32::count_ones](x: u32) -> (r: u32)
    ensures (r == 1) == pow2(x), r <= 32;
pub open spec fn pow2(c: u32) -> bool { c > 0 && c & sub(c, 1) == 0 }
/// i steps further round a buffer of capacity c
pub open spec fn wrap(i: int, c: int) -> int { if i < c { i } else { i - c } }
impl<T> FixedRingBuffer<Vec<T>> {
    pub open spec fn wf(&self) -> bool {
        &&& pow2(self.capacity)
        &&& self.capacity <= self.backing@.len()
        &&& self.front < self.capacity
        &&& self.len <= self.capacity
        &&& self.rear as int == wrap(self.front + self.len, self.capacity as int)
    }
    /// the items held, front first
    pub open spec fn items(&self) -> Seq<T> {
        Seq::new(self.len as nat, |i: int| self.backing@[wrap(self.front + i, self.capacity as int)])
    }
}
pub proof fn lemma_mask(x: u32, c: u32)
    requires pow2(c), x < 2 * c
    ensures (x & sub(c, 1)) as int == wrap(x as int, c as int), c <= 0x8000_0000, x as int % c as int == wrap(x as int, c as int)
{
    if x >= c { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(x as int, c as int); vstd::arithmetic::div_mod::lemma_small_mod((x - c) as nat, c as nat); assert((x - c) % (c as int) == x as int % c as int) by { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(x as int, c as int); } } else { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, c as nat); }
    assert(c > 0 && c & sub(c, 1) == 0 ==> c <= 0x8000_0000u32) by (bit_vector);
    assert(c > 0 && c & sub(c, 1) == 0 && x < c ==> x & sub(c, 1) == x) by (bit_vector);
    assert(c > 0 && c & sub(c, 1) == 0 && x >= c && sub(x, c) < c ==> x & sub(c, 1) == sub(x, c)) by (bit_vector);
}
/// a new queue is an empty one
pub proof fn lemma_new_is_empty<T>(q: FixedRingBuffer<Vec<T>>)
    requires pow2(q.capacity), q.capacity <= q.backing@.len(), q.front == 0, q.rear == 0, q.len == 0
    ensures q.wf(), q.items() =~= Seq::<T>::empty()
{}

//@ fn FixedRingBuffer::new
//@ ret r
//@ spec
    requires pow2(capacity)
    ensures r.capacity == capacity, r.backing == backing, r.front == 0, r.rear == 0, r.len == 0

//@ fn FixedRingBuffer::len
//@ opt inst BACKING Vec<T>
//@ ret r
//@ spec
    ensures r as int == self.items().len()

//@ fn FixedRingBuffer::is_full
//@ opt inst BACKING Vec<T>
//@ ret r
//@ spec
    ensures r == (self.items().len() >= self.capacity)

//@ fn FixedRingBuffer::is_empty
//@ opt inst BACKING Vec<T>
//@ ret r
//@ spec
    ensures r == (self.items().len() == 0)

//@ fn FixedRingBuffer::clear
//@ opt inst BACKING Vec<T>
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self).items() =~= Seq::<T>::empty()

//@ fn FixedRingBuffer::push_front
//@ opt inst BACKING Vec<T>
//@ opt index_inline FixedRingBuffer self
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity,
        final(self).items() =~= (if old(self).items().len() < old(self).capacity { seq![item] + old(self).items() } else { old(self).items() })
//@ entry
    proof { lemma_mask(self.front, self.capacity); lemma_mask((self.front + self.capacity - 1) as u32, self.capacity); }

//@ fn FixedRingBuffer::push_rear
//@ opt inst BACKING Vec<T>
//@ opt index_inline FixedRingBuffer self
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity,
        final(self).items() =~= (if old(self).items().len() < old(self).capacity { old(self).items().push(item) } else { old(self).items() })
//@ entry
    proof { lemma_mask(self.rear, self.capacity); lemma_mask((self.rear + 1) as u32, self.capacity); }

//@ fn FixedRingBuffer::pop_front
//@ opt inst BACKING Vec<T>
//@ opt index_inline FixedRingBuffer self
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity,
        old(self).items().len() == 0 ==> r is None && final(self).items() =~= old(self).items(),
        old(self).items().len() > 0 ==> r is Some && *r->0 == old(self).items()[0] && final(self).items() =~= old(self).items().subrange(1, old(self).items().len() as int)
//@ entry
    proof { lemma_mask(self.front, self.capacity); lemma_mask((self.front + 1) as u32, self.capacity); }

//@ fn FixedRingBuffer::pop_rear
//@ opt inst BACKING Vec<T>
//@ opt index_inline FixedRingBuffer self
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity,
        old(self).items().len() == 0 ==> r is None && final(self).items() =~= old(self).items(),
        old(self).items().len() > 0 ==> r is Some && *r->0 == old(self).items().last() && final(self).items() =~= old(self).items().drop_last()
//@ entry
    proof { lemma_mask(self.rear, self.capacity); lemma_mask((self.rear + self.capacity - 1) as u32, self.capacity); }

// what `iter` gives at the place `vx_p` (rule R33)
//@ fn FixedRingBuffer::iter
//@ opt inst BACKING Vec<T>
//@ opt map_range u32
//@ opt index_inline FixedRingBuffer self
//@ ret r
//@ spec
    requires self.wf()
    ensures vx_p < self.items().len() ==> r is Some && *r->0 == self.items()[vx_p as int],
        vx_p >= self.items().len() ==> r is None
//@ entry
    proof { if vx_p < self.len { lemma_mask((self.front + vx_p) as u32, self.capacity); } }
