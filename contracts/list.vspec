// Contracts for the doubly linked list kept in an arena
//@ file src/collections.rs
//@ type InternalPtr
//@ type Ptr keep_derives
//@ type Node
//@ consts NULL
//@ global
impl<T> LinkedList<T> {
    /// the node a pointer stands for
    pub open spec fn at(&self, p: Ptr) -> Node<T, 2> { self.memory@[p.0 as int] }
    /// node i of the ring `s` is in use and linked to its neighbours
    pub open spec fn ok(&self, s: Seq<Ptr>, i: int) -> bool {
        let n = s.len() as int;
        &&& s[i].0 < self.memory@.len()
        &&& self.at(s[i]).data is Some
        &&& self.at(s[i]).children[1] == s[if i == n - 1 { 0 } else { i + 1 }]
        &&& self.at(s[i]).children[0] == s[if i == 0 { n - 1 } else { i - 1 }]
    }
    /// freed node i is empty and linked to the next one
    pub open spec fn okp(&self, p: Seq<Ptr>, i: int) -> bool {
        &&& p[i].0 < self.memory@.len()
        &&& self.at(p[i]).data is None
        &&& self.at(p[i]).children[1] == if i == p.len() - 1 { NULL } else { p[i + 1] }
    }
    /// `s` are the nodes in order, front first (a ring of links), and `p` the freed ones (a chain of links)
    pub open spec fn laid(&self, s: Seq<Ptr>, p: Seq<Ptr>) -> bool {
        let n = s.len() as int;
        &&& n == self.len && n + p.len() == self.memory@.len() && self.memory@.len() <= u32::MAX
        &&& s.no_duplicates() && p.no_duplicates()
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.ok(s, i)
        &&& self.front == if n == 0 { NULL } else { s[0] }
        &&& self.rear == if n == 0 { NULL } else { s[n - 1] }
        &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] self.okp(p, i)
        &&& self.pool == if p.len() == 0 { NULL } else { p[0] }
    }
    pub open spec fn ring(&self, s: Seq<Ptr>) -> bool { exists|p: Seq<Ptr>| self.laid(s, p) }
    pub open spec fn wf(&self) -> bool { exists|s: Seq<Ptr>| self.ring(s) }
    /// pointers to the items, front first
    pub open spec fn nodes(&self) -> Seq<Ptr> { choose|s: Seq<Ptr>| self.ring(s) }
    /// the number of nodes kept, used or freed
    pub open spec fn slots(&self) -> int { self.memory@.len() as int }
    pub open spec fn freed(&self) -> Seq<Ptr> { choose|p: Seq<Ptr>| self.laid(self.nodes(), p) }
    /// the items, front first
    pub open spec fn items(&self) -> Seq<T> { Seq::new(self.nodes().len(), |i: int| self.at(self.nodes()[i]).data->0) }
}
/// there is only one way to read a list
pub proof fn lemma_laid_unique<T>(l: LinkedList<T>, s: Seq<Ptr>, p: Seq<Ptr>, t: Seq<Ptr>, q: Seq<Ptr>)
    requires l.laid(s, p), l.laid(t, q)
    ensures s == t, p == q
{
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { lemma_laid_s(l, s, p, t, q, i); }
    assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { lemma_laid_p(l, s, p, t, q, i); }
    assert(s =~= t);
    assert(p =~= q);
}
proof fn lemma_laid_s<T>(l: LinkedList<T>, s: Seq<Ptr>, p: Seq<Ptr>, t: Seq<Ptr>, q: Seq<Ptr>, i: int)
    requires l.laid(s, p), l.laid(t, q), 0 <= i < s.len()
    ensures s[i] == t[i]
    decreases i
{ assert(l.ok(s, i)); if i > 0 { lemma_laid_s(l, s, p, t, q, i - 1); assert(l.ok(s, i - 1)); assert(l.ok(t, i - 1)); } }
proof fn lemma_laid_p<T>(l: LinkedList<T>, s: Seq<Ptr>, p: Seq<Ptr>, t: Seq<Ptr>, q: Seq<Ptr>, i: int)
    requires l.laid(s, p), l.laid(t, q), 0 <= i < p.len()
    ensures p[i] == q[i]
    decreases i
{ if i > 0 { lemma_laid_p(l, s, p, t, q, i - 1); assert(l.okp(p, i - 1)); assert(l.okp(q, i - 1)); } }
pub proof fn lemma_laid<T>(l: LinkedList<T>, s: Seq<Ptr>, p: Seq<Ptr>)
    requires l.laid(s, p)
    ensures l.wf(), l.nodes() == s, l.freed() == p
{
    assert(l.ring(s));
    let t = l.nodes();
    assert(l.ring(t));
    let q = choose|q: Seq<Ptr>| l.laid(t, q);
    lemma_laid_unique(l, s, p, t, q);
    lemma_laid_unique(l, s, p, t, l.freed());
}
pub proof fn lemma_wf<T>(l: LinkedList<T>)
    requires l.wf()
    ensures l.laid(l.nodes(), l.freed())
{
    assert(l.ring(l.nodes()));
}
/// the links of `b` are those of `a` with the node x, holding `data`, put in before or behind node m
pub open spec fn inserted<T>(a: LinkedList<T>, b: LinkedList<T>, s: Seq<Ptr>, p: Seq<Ptr>, m: int, left: bool, x: Ptr, data: T) -> bool {
    let n = s.len() as int;
    let lo = if !left { m } else if m == 0 { n - 1 } else { m - 1 };
    let hi = if left { m } else if m == n - 1 { 0 } else { m + 1 };
    &&& b.memory@.len() == a.memory@.len() + if p.len() == 0 { 1int } else { 0 }
    &&& b.len == a.len + 1
    &&& b.pool == if p.len() <= 1 { NULL } else { p[1] }
    &&& x.0 < b.memory@.len() && b.at(x).data == Some(data)
    &&& n == 0 ==> b.at(x).children[0] == x && b.at(x).children[1] == x && b.front == x && b.rear == x
    &&& n == 0 ==> forall|k: int| 0 <= k < a.memory@.len() && k != x.0 ==> #[trigger] b.memory@[k] == a.memory@[k]
    &&& n > 0 ==> b.at(x).children[0] == s[lo] && b.at(x).children[1] == s[hi]
    &&& n > 0 ==> b.at(s[lo]).children[1] == x && b.at(s[hi]).children[0] == x
    &&& n > 0 && lo != hi ==> b.at(s[lo]).children[0] == a.at(s[lo]).children[0] && b.at(s[hi]).children[1] == a.at(s[hi]).children[1]
    &&& n > 0 ==> b.at(s[lo]).data == a.at(s[lo]).data && b.at(s[hi]).data == a.at(s[hi]).data
    &&& n > 0 ==> forall|k: int| 0 <= k < a.memory@.len() && k != x.0 && k != s[lo].0 && k != s[hi].0 ==> #[trigger] b.memory@[k] == a.memory@[k]
    &&& n > 0 ==> b.front == if left && m == 0 { x } else { a.front }
    &&& n > 0 ==> b.rear == if !left && m == n - 1 { x } else { a.rear }
}
pub proof fn lemma_inserted<T>(a: LinkedList<T>, b: LinkedList<T>, s: Seq<Ptr>, p: Seq<Ptr>, m: int, left: bool, x: Ptr, data: T)
    requires a.laid(s, p), s.len() == 0 || 0 <= m < s.len(), inserted(a, b, s, p, m, left, x, data), b.memory@.len() <= u32::MAX,
        x == (if p.len() == 0 { Ptr(a.memory@.len() as u32) } else { p[0] }),
    ensures ({
        let k = if s.len() == 0 { 0int } else if left { m } else { m + 1 };
        let t = s.insert(k, x);
        &&& b.laid(t, if p.len() == 0 { p } else { p.remove(0) }) && b.nodes() == t && b.wf()
        &&& !s.contains(x) && t[k] == x
        &&& a.nodes() == s && b.items() =~= a.items().insert(k, data)
    })
{
    lemma_null();
    let n = s.len() as int;
    let k = if s.len() == 0 { 0int } else if left { m } else { m + 1 };
    let t = s.insert(k, x);
    let q = if p.len() == 0 { p } else { p.remove(0) };
    if p.len() > 0 { assert(a.okp(p, 0)); }
    assert forall|i: int| 0 <= i < n implies x != s[i] && s[i].0 != x.0 by { assert(a.ok(s, i)); }
    assert(t.no_duplicates());
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] b.ok(t, i) by {
        if n > 0 && i != k { assert(a.ok(s, if i < k { i } else { i - 1 })); }
    }
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] b.okp(q, i) by {
        assert(a.okp(p, i + 1));
        assert forall|j: int| 0 <= j < n implies s[j] != p[i + 1] by { assert(a.ok(s, j)); }
    }
    assert(b.laid(t, q));
    lemma_laid(a, s, p);
    lemma_laid(b, t, q);
    assert forall|i: int| 0 <= i < n implies b.at(s[i]).data == #[trigger] a.at(s[i]).data by { assert(a.ok(s, i)); }
}
/// the links of `b` are those of `a` without node k
pub open spec fn removed<T>(a: LinkedList<T>, b: LinkedList<T>, s: Seq<Ptr>, p: Seq<Ptr>, k: int) -> bool {
    let n = s.len() as int;
    let lo = if k == 0 { n - 1 } else { k - 1 };
    let hi = if k == n - 1 { 0 } else { k + 1 };
    &&& b.memory@.len() == a.memory@.len() && b.len == a.len - 1
    &&& b.pool == s[k] && b.at(s[k]).data is None && b.at(s[k]).children[1] == a.pool
    &&& n > 1 ==> b.at(s[lo]).children[1] == s[hi] && b.at(s[hi]).children[0] == s[lo]
    &&& n > 1 && lo != hi ==> b.at(s[lo]).children[0] == a.at(s[lo]).children[0] && b.at(s[hi]).children[1] == a.at(s[hi]).children[1]
    &&& n > 1 ==> b.at(s[lo]).data == a.at(s[lo]).data && b.at(s[hi]).data == a.at(s[hi]).data
    &&& forall|i: int| 0 <= i < a.memory@.len() && i != s[lo].0 && i != s[hi].0 && i != s[k].0 ==> #[trigger] b.memory@[i] == a.memory@[i]
    &&& b.front == if n == 1 { NULL } else if k == 0 { s[1] } else { a.front }
    &&& b.rear == if n == 1 { NULL } else if k == n - 1 { s[n - 2] } else { a.rear }
}
pub proof fn lemma_removed<T>(a: LinkedList<T>, b: LinkedList<T>, s: Seq<Ptr>, p: Seq<Ptr>, k: int)
    requires a.laid(s, p), 0 <= k < s.len(), removed(a, b, s, p, k)
    ensures b.laid(s.remove(k), p.insert(0, s[k])), b.wf(), b.nodes() == s.remove(k), a.nodes() == s, b.items() =~= a.items().remove(k)
{
    lemma_null();
    let n = s.len() as int;
    let t = s.remove(k);
    let q = p.insert(0, s[k]);
    assert(a.ok(s, k));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] b.ok(t, i) by { assert(a.ok(s, if i < k { i } else { i + 1 })); }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] != s[k] by { assert(a.okp(p, i)); }
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] b.okp(q, i) by {
        if i > 0 {
            assert(a.okp(p, i - 1));
            assert forall|j: int| 0 <= j < n implies s[j] != p[i - 1] by { assert(a.ok(s, j)); }
        }
    }
    assert(b.laid(t, q));
    lemma_laid(a, s, p);
    lemma_laid(b, t, q);
    assert forall|i: int| 0 <= i < n && i != k implies b.at(s[i]).data == #[trigger] a.at(s[i]).data by { assert(a.ok(s, i)); }
}
proof fn lemma_null()
    ensures NULL.0 == u32::MAX
{ assert(!0u32 == u32::MAX) by (bit_vector); }
proof fn lemma_index(s: Seq<Ptr>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len()
    ensures s.index_of(s[i]) == i
{}
/// the item of node i
pub proof fn lemma_item<T>(l: LinkedList<T>, i: int)
    requires l.wf(), 0 <= i < l.nodes().len()
    ensures l.ok(l.nodes(), i), l.items()[i] == l.at(l.nodes()[i]).data->0
{ lemma_wf(l); }
impl vstd::std_specs::convert::FromSpecImpl<u32> for Ptr { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: u32) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<u64> for Ptr { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: u64) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<usize> for Ptr { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: usize) -> Self { arbitrary() } }
/// what is held in the front node can be changed without touching the rest
pub broadcast proof fn lemma_front_changed<T>(a: LinkedList<T>, b: LinkedList<T>)
    requires a.wf(), a.nodes().len() > 0, b.front == a.front, b.rear == a.rear, b.pool == a.pool, b.len == a.len,
        b.memory@ == a.memory@.update(a.front.0 as int, b.at(a.front)), b.at(a.front).children == a.at(a.front).children, b.at(a.front).data is Some
    ensures #![trigger a.items(), b.items()] #![trigger a.wf(), b.wf()] b.wf(), b.nodes() == a.nodes(), b.items() =~= a.items().update(0, b.at(a.front).data->0)
{
    lemma_wf(a);
    let (s, p) = (a.nodes(), a.freed());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] b.ok(s, i) by { assert(a.ok(s, i)); assert(a.ok(s, 0)); }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] b.okp(p, i) by { assert(a.okp(p, i)); assert(a.ok(s, 0)); }
    assert(b.laid(s, p));
    lemma_laid(b, s, p);
    assert forall|i: int| 0 < i < s.len() implies b.at(s[i]).data == #[trigger] a.at(s[i]).data by { assert(a.ok(s, i)); assert(s[0] != s[i]); }
}
//@ fn Ptr::as_usize
//@ ret r
//@ spec
    ensures r == self.0
//@ fn Ptr as From<usize>::from
//@ keep_trait
//@ ret r
//@ spec
    ensures idx <= u32::MAX ==> r.0 == idx
//@ fn Ptr as From<u32>::from
//@ keep_trait
//@ ret r
//@ spec
    ensures r.0 == idx
//@ fn Ptr as From<u64>::from
//@ keep_trait
//@ ret r
//@ spec
    ensures idx <= u32::MAX ==> r.0 == idx
//@ fn Node::new
//@ ret r
//@ spec
    ensures r.data is None
//@ fn Node as From::from
//@ ret r
//@ spec
    ensures r.data == Some(item)
//@ fn Node::nullify
//@ spec
    ensures final(self).data == old(self).data
//@ fn Node::set_data
//@ spec
    ensures final(self).data == Some(item), final(self).children == old(self).children
//@ fn Node::data
//@ ret r
//@ spec
    ensures (match r { Some(x) => self.data == Some(*x), None => self.data is None })
//@ fn Node::data_mut
//@ ret r
//@ spec
    ensures (match r { Some(x) => old(self).data == Some(*x) && final(self).data == Some(*final(x)) && final(self).children == old(self).children, None => old(self).data is None && *final(self) == *old(self) })
//@ file src/collections/linked_list.rs
//@ type InsertDirection keep_derives
//@ type LinkedList
//@ type LinkedListIterator
//@ fn InsertDirection::as_usize
//@ ret r
//@ spec
    ensures r == (if self == InsertDirection::Left { 0usize } else { 1usize })
//@ fn LinkedList::new
//@ ret r
//@ spec
    ensures r.wf(), r.slots() == 0, r.nodes() == Seq::<Ptr>::empty(), r.items() =~= Seq::<T>::empty()
//@ exit
    proof { lemma_laid(__vx_r, Seq::<Ptr>::empty(), Seq::<Ptr>::empty()); }
//@ fn LinkedList::len
//@ ret r
//@ spec
    ensures r == self.len, self.wf() ==> r == self.items().len()
//@ entry
    proof { if self.wf() { lemma_wf(*self); } }
//@ fn LinkedList::front
//@ ret r
//@ spec
    ensures r == self.front, self.wf() ==> r == (if self.nodes().len() == 0 { NULL } else { self.nodes()[0] }),
        self.wf() && self.nodes().len() > 0 ==> r.0 < self.memory@.len() && self.at(r).data == Some(self.items()[0])
//@ entry
    proof { if self.wf() { lemma_wf(*self); if self.nodes().len() > 0 { lemma_item(*self, 0); } } }
//@ fn LinkedList::rear
//@ ret r
//@ spec
    ensures r == self.rear, self.wf() ==> r == (if self.nodes().len() == 0 { NULL } else { self.nodes().last() }),
        self.wf() && self.nodes().len() > 0 ==> r.0 < self.memory@.len() && self.at(r).data == Some(self.items()[self.nodes().len() - 1])
//@ entry
    proof { if self.wf() { lemma_wf(*self); if self.nodes().len() > 0 { lemma_item(*self, self.nodes().len() - 1); } } }
//@ fn LinkedList::get
//@ ret r
//@ spec
    ensures r is Some <==> node.0 < self.memory@.len(), r is Some ==> *r->0 == self.at(node)
//@ fn LinkedList::get_mut
//@ ret r
//@ spec
    ensures final(self).front == old(self).front, final(self).rear == old(self).rear, final(self).len == old(self).len, final(self).pool == old(self).pool,
        match r {
            Some(x) => node.0 < old(self).memory@.len() && *x == old(self).at(node) && final(self).memory@ == old(self).memory@.update(node.0 as int, *final(x)),
            None => node.0 >= old(self).memory@.len() && final(self).memory@ == old(self).memory@,
        }
//@ fn LinkedList::allocate
//@ opt index_inline LinkedList self
//@ ret r
//@ spec
    requires old(self).pool == NULL ==> old(self).slots() < u32::MAX, old(self).pool != NULL ==> old(self).pool.0 < old(self).memory@.len()
    ensures
        r == (if old(self).pool == NULL { Ptr(old(self).memory@.len() as u32) } else { old(self).pool }),
        final(self).memory@.len() == old(self).memory@.len() + if old(self).pool == NULL { 1int } else { 0 },
        forall|k: int| 0 <= k < old(self).memory@.len() && k != r.0 ==> #[trigger] final(self).memory@[k] == old(self).memory@[k],
        final(self).at(r).data == Some(item),
        final(self).pool == (if old(self).pool == NULL { NULL } else { old(self).at(old(self).pool).children[1] }),
        final(self).front == old(self).front, final(self).rear == old(self).rear, final(self).len == old(self).len
//@ fn LinkedList::free
//@ opt index_inline LinkedList self
//@ ret r
//@ spec
    requires node.0 < old(self).memory@.len()
    ensures
        r == old(self).at(node).data,
        final(self).memory@.len() == old(self).memory@.len(),
        forall|k: int| 0 <= k < old(self).memory@.len() && k != node.0 ==> #[trigger] final(self).memory@[k] == old(self).memory@[k],
        final(self).at(node).data is None, final(self).at(node).children[1] == old(self).pool,
        final(self).pool == node,
        final(self).front == old(self).front, final(self).rear == old(self).rear, final(self).len == old(self).len
//@ fn LinkedList::insert_at
//@ opt exit_all
//@ opt index_inline LinkedList self
//@ spec
    requires old(self).wf(), old(self).items().len() < u32::MAX,
        old(self).nodes().len() > 0 && node != NULL ==> old(self).nodes().contains(node)
    ensures final(self).wf(), final(self).slots() == (if old(self).items().len() == old(self).slots() && (old(self).nodes().len() == 0 || node != NULL) { old(self).slots() + 1 } else { old(self).slots() }),
        old(self).nodes().len() > 0 && node == NULL ==> *final(self) == *old(self),
        old(self).nodes().len() == 0 || node != NULL ==> ({
            let k = if old(self).nodes().len() == 0 { 0 } else if direction == InsertDirection::Left { old(self).nodes().index_of(node) } else { old(self).nodes().index_of(node) + 1 };
            &&& 0 <= k < final(self).nodes().len()
            &&& !old(self).nodes().contains(final(self).nodes()[k])
            &&& final(self).nodes() =~= old(self).nodes().insert(k, final(self).nodes()[k])
            &&& final(self).items() =~= old(self).items().insert(k, data)
        })
//@ entry
    let ghost s = self.nodes();
    let ghost p = self.freed();
    let ghost a = *self;
    let ghost m = if s.contains(node) { s.index_of(node) } else { 0 };
    proof {
        lemma_null();
        lemma_wf(*self);
        assert(p.len() > 0 ==> a.okp(p, 0));
        if s.len() > 0 { assert(a.ok(s, m)); assert(a.ok(s, if m == 0 { s.len() - 1 } else { m - 1 })); assert(a.ok(s, if m == s.len() - 1 { 0 } else { m + 1 })); }
    }
//@ exit
    proof {
        if s.len() > 0 && node == NULL { } else {
            let x = if p.len() == 0 { Ptr(a.memory@.len() as u32) } else { p[0] };
            assert forall|i: int| 0 <= i < s.len() implies x != s[i] by { assert(a.ok(s, i)); }
            assert(inserted(a, *self, s, p, m, direction == InsertDirection::Left, x, data));
            lemma_inserted(a, *self, s, p, m, direction == InsertDirection::Left, x, data);
        }
    }
//@ fn LinkedList::remove_at
//@ opt exit_all
//@ opt index_inline LinkedList self
//@ ret r
//@ spec
    requires old(self).wf(), old(self).nodes().len() > 0 ==> old(self).nodes().contains(node)
    ensures final(self).wf(), final(self).slots() == old(self).slots(),
        old(self).nodes().len() == 0 ==> r is None && *final(self) == *old(self),
        old(self).nodes().len() > 0 ==> ({
            let k = old(self).nodes().index_of(node);
            &&& r == Some(old(self).items()[k])
            &&& final(self).nodes() =~= old(self).nodes().remove(k)
            &&& final(self).items() =~= old(self).items().remove(k)
        })
//@ entry
    let ghost s = self.nodes();
    let ghost p = self.freed();
    let ghost k = s.index_of(node);
    let ghost a = *self;
    proof {
        lemma_null();
        lemma_null();
        lemma_wf(*self);
        if p.len() > 0 { assert(a.okp(p, 0)); }
        if s.len() > 0 { assert(a.ok(s, k)); assert(a.ok(s, if k == 0 { s.len() - 1 } else { k - 1 })); assert(a.ok(s, if k == s.len() - 1 { 0 } else { k + 1 })); }
    }
//@ exit
    proof {
        if s.len() > 0 {
            assert(removed(a, *self, s, p, k));
            lemma_removed(a, *self, s, p, k);
        }
    }
//@ fn LinkedList::push_front
//@ spec
    requires old(self).wf(), old(self).items().len() < u32::MAX
    ensures final(self).wf(), final(self).slots() == (if old(self).items().len() == old(self).slots() { old(self).slots() + 1 } else { old(self).slots() }), final(self).items() =~= seq![data] + old(self).items(),
        final(self).nodes() =~= seq![final(self).nodes()[0]] + old(self).nodes(), final(self).nodes().len() > 0, !old(self).nodes().contains(final(self).nodes()[0])
//@ entry
    proof { lemma_null(); lemma_wf(*self); if self.nodes().len() > 0 { lemma_index(self.nodes(), 0); assert(self.ok(self.nodes(), 0)); } }
//@ fn LinkedList::push_rear
//@ spec
    requires old(self).wf(), old(self).items().len() < u32::MAX
    ensures final(self).wf(), final(self).slots() == (if old(self).items().len() == old(self).slots() { old(self).slots() + 1 } else { old(self).slots() }), final(self).items() =~= old(self).items().push(data),
        final(self).nodes() =~= old(self).nodes().push(final(self).nodes().last()), final(self).nodes().len() > 0, !old(self).nodes().contains(final(self).nodes().last())
//@ entry
    proof { lemma_null(); lemma_wf(*self); if self.nodes().len() > 0 { lemma_index(self.nodes(), self.nodes().len() - 1); assert(self.ok(self.nodes(), self.nodes().len() - 1)); } }
//@ fn LinkedList::pop_front
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).slots() == old(self).slots(), old(self).items().len() == 0 ==> r is None && final(self).items() =~= old(self).items(),
        old(self).items().len() > 0 ==> r == Some(old(self).items()[0]) && final(self).items() =~= old(self).items().remove(0),
        old(self).items().len() > 0 ==> final(self).nodes() =~= old(self).nodes().remove(0)
//@ entry
    proof { lemma_null(); lemma_wf(*self); if self.nodes().len() > 0 { lemma_index(self.nodes(), 0); } }
//@ fn LinkedList::pop_rear
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).slots() == old(self).slots(), old(self).items().len() == 0 ==> r is None && final(self).items() =~= old(self).items(),
        old(self).items().len() > 0 ==> r == Some(old(self).items().last()) && final(self).items() =~= old(self).items().drop_last(),
        old(self).items().len() > 0 ==> final(self).nodes() =~= old(self).nodes().drop_last()
//@ entry
    proof { lemma_null(); lemma_wf(*self); if self.nodes().len() > 0 { lemma_index(self.nodes(), self.nodes().len() - 1); } }
//@ fn LinkedList::iter
//@ opt map_of LinkedListIterator::new(self) => Ptr
//@ opt index_inline LinkedList self
//@ ret r
//@ spec
    requires self.wf(), self.nodes().contains(vx_p)
    ensures *r == self.items()[self.nodes().index_of(vx_p)]
//@ entry
    proof { lemma_item(*self, self.nodes().index_of(vx_p)); }
//@ fn LinkedListIterator::new
//@ opt index_inline LinkedList ll
//@ ret r
//@ spec
    ensures r.ll == ll, r.items_remianing == ll.len, r.ptr == ll.front
//@ fn LinkedListIterator as Iterator::next
//@ opt index_inline LinkedList self.ll
//@ ret r
//@ spec
    requires old(self).ll.wf(), old(self).items_remianing <= old(self).ll.nodes().len(),
        old(self).items_remianing > 0 ==> old(self).ptr == old(self).ll.nodes()[old(self).ll.nodes().len() - old(self).items_remianing]
    ensures final(self).ll == old(self).ll,
        old(self).items_remianing == 0 ==> r is None && final(self).items_remianing == 0,
        old(self).items_remianing > 0 ==> r == Some(old(self).ptr) && final(self).items_remianing == old(self).items_remianing - 1,
        final(self).items_remianing > 0 ==> final(self).ptr == final(self).ll.nodes()[final(self).ll.nodes().len() - final(self).items_remianing]
//@ entry
    proof { lemma_wf(*self.ll); if self.items_remianing > 0 { assert(self.ll.ok(self.ll.nodes(), self.ll.nodes().len() - self.items_remianing)); } }

//@ global
/// iterating gives the items front to back (`iter` maps every node to its item: rule R31)
pub fn prog_iterate<T>(l: &LinkedList<T>) -> (r: Vec<&T>)
    requires l.wf()
    ensures r@.len() == l.items().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == l.items()[i]
{
    let mut out: Vec<&T> = Vec::new();
    let mut it = LinkedListIterator::new(l);
    proof { lemma_wf(*l); }
    loop
        invariant l.wf(), it.ll == l, it.items_remianing <= l.nodes().len(), out@.len() == l.nodes().len() - it.items_remianing,
            it.items_remianing > 0 ==> it.ptr == l.nodes()[l.nodes().len() - it.items_remianing],
            forall|i: int| 0 <= i < out@.len() ==> *#[trigger] out@[i] == l.items()[i]
        ensures it.items_remianing == 0
        decreases it.items_remianing
    {
        let ghost k = l.nodes().len() - it.items_remianing;
        match it.next() {
            Some(node) => {
                proof { lemma_wf(*l); lemma_index(l.nodes(), k); }
                out.push(l.iter(node));
            }
            None => break,
        }
    }
    out
}
/// items taken off one end are the ones put on it, in reverse; off the other end in order
pub fn prog_ends<T>(l: &mut LinkedList<T>, x: T, y: T) -> (r: (Option<T>, Option<T>))
    requires old(l).wf(), old(l).items().len() < u32::MAX - 1
    ensures r == (Some(y), Some(x)), final(l).wf(), final(l).items() =~= old(l).items()
{
    l.push_front(x);
    l.push_rear(y);
    let b = l.pop_rear();
    let a = l.pop_front();
    (b, a)
}
/// an empty list is what new gives; one item in it is at both ends
pub fn prog_single<T>(x: T) -> (r: Option<T>)
    ensures r == Some(x)
{
    let mut l: LinkedList<T> = LinkedList::new();
    l.push_rear(x);
    assert(l.items() =~= seq![x]);
    l.pop_front()
}
/// changing an item through its pointer changes that item and no other
pub fn prog_change<T>(l: &mut LinkedList<T>, node: Ptr, x: T)
    requires old(l).wf(), old(l).nodes().contains(node)
    ensures final(l).wf(), final(l).nodes() == old(l).nodes(), final(l).items() =~= old(l).items().update(old(l).nodes().index_of(node), x)
{
    let ghost a = *l;
    let ghost s = l.nodes();
    let ghost p = l.freed();
    let ghost k = s.index_of(node);
    proof { lemma_wf(*l); assert(a.ok(s, k)); }
    match l.get_mut(node) {
        Some(n) => match n.data_mut() { Some(d) => { *d = x; } None => {} },
        None => {}
    }
    proof {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] l.ok(s, i) by { assert(a.ok(s, i)); }
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] l.okp(p, i) by { assert(a.okp(p, i)); }
        assert(l.laid(s, p));
        lemma_laid(*l, s, p);
        assert forall|i: int| 0 <= i < s.len() && i != k implies l.at(s[i]).data == #[trigger] a.at(s[i]).data by { assert(a.ok(s, i)); }
    }
}
