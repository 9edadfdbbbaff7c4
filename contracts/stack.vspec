// Contracts for the sample history
//@ file src/collections/stack.rs
//@ type CircularStack copy_clone
//@ global
impl<T> CircularStack<T> {
    pub open spec fn n(&self) -> int { self.len as int }
    pub open spec fn cur(&self) -> int { self.cursor as int }
    pub open spec fn wf(&self) -> bool { self.len <= 4 && self.cursor <= 3 }
    /// the last min(n, 4) of these pushes are what the history holds
    pub open spec fn holds(&self, pushes: Seq<T>) -> bool {
        &&& self.wf()
        &&& self.n() <= pushes.len()
        &&& forall|o: int| 1 <= o <= self.n() ==> #[trigger] self.back(o) == pushes[pushes.len() - o]
    }
    /// the value pushed `o` pushes ago (o = 1 is the newest); past the oldest one it stays at the oldest
    pub open spec fn back(&self, o: int) -> T {
        let c = if o < self.n() { o } else { self.n() };
        self.data@[(self.cur() + 4 - c) % 4]
    }
}
pub proof fn lemma_and3(x: u32)
    ensures x & 3 == x % 4
{ assert(x & 3 == x % 4) by (bit_vector); }

//@ fn CircularStack::len
//@ ret r
//@ spec
    ensures r as int == self.n()

//@ fn CircularStack::new
//@ ret r
//@ spec
    ensures r.wf(), r.n() == 0, call_ensures(T::default, (), r.back(1)), r.back(1) == r.back(2), r.back(1) == r.back(3)

//@ fn CircularStack::push
//@ opt index_inline CircularStack self
//@ attr
#[verifier::spinoff_prover]
//@ spec
    requires old(self).wf()
    ensures final(self).wf(),
        final(self).n() == (if old(self).n() < 4 { old(self).n() + 1 } else { 4 }),
        final(self).back(1) == item,
        final(self).back(2) == (if old(self).n() == 0 { item } else { old(self).back(1) }),
        final(self).back(3) == (if old(self).n() == 0 { item } else { old(self).back(2) }),
        final(self).back(4) == (if old(self).n() == 0 { item } else { old(self).back(3) }),
        forall|p: Seq<T>| #[trigger] old(self).holds(p) ==> final(self).holds(p.push(item)),
//@ entry
    proof { lemma_and3(self.cursor); lemma_and3((self.cursor + 1) as u32); }
    let ghost was = *self;
//@ exit
    proof {
        assert forall|o: int| 2 <= o <= self.n() implies #[trigger] self.back(o) == was.back(o - 1) by {}
        assert forall|p: Seq<T>| #[trigger] was.holds(p) implies self.holds(p.push(item)) by {
            assert forall|o: int| 1 <= o <= self.n() implies #[trigger] self.back(o) == p.push(item)[p.push(item).len() - o] by {
                if o > 1 { assert(was.back(o - 1) == p[p.len() - (o - 1)]); }
            }
        }
    }

//@ fn CircularStack::prev
//@ ret r
//@ opt index_inline CircularStack self
//@ spec
    requires self.wf()
    ensures r == self.back(offset as int)
//@ entry
    proof { lemma_and3((self.cursor + 4 - (if offset < self.len { offset } else { self.len })) as u32); }

//@ fn CircularStack::is_empty
//@ ret r
//@ spec
    ensures r == (self.n() == 0)

//@ fn CircularStack::pop
//@ ret r
//@ opt index_inline CircularStack self
//@ spec
    requires old(self).wf()
    ensures final(self).wf(),
        final(self).n() == (if old(self).n() > 0 { old(self).n() - 1 } else { 0 }),
        old(self).n() > 0 ==> r == old(self).back(1),
        old(self).n() > 1 ==> final(self).back(1) == old(self).back(2) && final(self).back(2) == old(self).back(3) && final(self).back(3) == old(self).back(4),
        forall|p: Seq<T>, x: T| old(self).n() > 0 && #[trigger] old(self).holds(p.push(x)) ==> r == x && final(self).holds(p),
//@ entry
    proof { lemma_and3((self.cursor + 4 - 1) as u32); }
    let ghost was = *self;
//@ exit
    proof {
        assert forall|o: int| 1 <= o <= self.n() implies #[trigger] self.back(o) == was.back(o + 1) by {}
        assert forall|p: Seq<T>, x: T| was.n() > 0 && #[trigger] was.holds(p.push(x)) implies __vx_r == x && self.holds(p) by {
            assert(was.back(1) == p.push(x)[p.push(x).len() - 1]);
            assert forall|o: int| 1 <= o <= self.n() implies #[trigger] self.back(o) == p[p.len() - o] by {
                assert(was.back(o + 1) == p.push(x)[p.push(x).len() - (o + 1)]);
            }
        }
    }

//@ global
/// the statement of the property: offset o gives the push o pushes ago, or the oldest one still held
pub proof fn lemma_history<T>(h: CircularStack<T>, p: Seq<T>, o: int)
    requires h.holds(p), h.n() > 0, 1 <= o
    ensures h.back(o) == p[p.len() - (if o < h.n() { o } else { h.n() })]
{
    let c = if o < h.n() { o } else { h.n() };
    assert(h.back(c) == p[p.len() - c]);
}
