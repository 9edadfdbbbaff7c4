// Contracts for the cache of the most recently used entries
//@ file src/collections/lru_cache.rs
//@ global
use std::collections::HashMap;
use std::hash::{Hash, BuildHasher};
use std::borrow::Borrow;
use vstd::std_specs::hash::*;
pub trait Serialize {}
impl Serialize for u32 {}
pub assume_specification<'a, K, V, S, A, Q> [std::collections::HashMap::<K, V, S, A>::get_mut] (m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: std::option::Option<&'a mut V>)
    where A: std::alloc::Allocator, K: std::cmp::Eq + std::hash::Hash + std::borrow::Borrow<Q>, Q: std::hash::Hash + std::cmp::Eq + ?Sized, S: std::hash::BuildHasher
    ensures obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> match r {
        Some(v) => exists|j: K| {
            &&& #[trigger] old(m)@.contains_key(j) && old(m)@[j] == *v
            &&& contains_borrowed_key(Map::<K, V>::empty().insert(j, *v), k) && contains_borrowed_key(old(m)@, k)
            &&& final(m)@ == old(m)@.insert(j, *final(v))
        },
        None => !contains_borrowed_key(old(m)@, k) && final(m)@ == old(m)@,
    };
/// the entry of a key, if there is one
pub open spec fn holds<K, V>(e: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k }
pub open spec fn place<K, V>(e: Seq<(K, V)>, k: K) -> int { choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k }
/// the table leads from the key of each entry to its node, and has no other keys
pub open spec fn keyed<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, i: int) -> bool { t.contains_key(e[i].0) && t[e[i].0] == s[i] }
pub open spec fn indexed<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>) -> bool {
    &&& s.len() == e.len() && s.no_duplicates()
    &&& forall|i: int| 0 <= i < e.len() ==> #[trigger] keyed(t, s, e, i)
    &&& forall|k: K| #[trigger] t.contains_key(k) ==> holds(e, k)
}
pub proof fn lemma_place<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, k: K)
    requires indexed(t, s, e)
    ensures t.contains_key(k) == holds(e, k),
        t.contains_key(k) ==> 0 <= place(e, k) < e.len() && e[place(e, k)].0 == k && t[k] == s[place(e, k)] && s.contains(t[k]) && s.index_of(t[k]) == place(e, k)
{
    if holds(e, k) { assert(keyed(t, s, e, place(e, k))); lemma_index(s, place(e, k)); }
}
pub proof fn lemma_drop<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, i: int)
    requires indexed(t, s, e), 0 <= i < e.len()
    ensures indexed(t.remove(e[i].0), s.remove(i), e.remove(i)), !holds(e.remove(i), e[i].0)
{
    let (u, q, f) = (t.remove(e[i].0), s.remove(i), e.remove(i));
    assert(keyed(t, s, e, i));
    assert forall|j: int| 0 <= j < f.len() implies #[trigger] keyed(u, q, f, j) && f[j].0 != e[i].0 by { assert(keyed(t, s, e, if j < i { j } else { j + 1 })); }
    assert forall|k: K| #[trigger] u.contains_key(k) implies holds(f, k) by {
        let j = place(e, k);
        assert(f[if j < i { j } else { j - 1 }].0 == k);
    }
    assert forall|j: int| 0 <= j < f.len() implies (#[trigger] f[j]).0 != e[i].0 by { assert(keyed(u, q, f, j)); }
}
pub proof fn lemma_add<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, x: Ptr, k: K, v: V)
    requires indexed(t, s, e), !t.contains_key(k), !s.contains(x)
    ensures indexed(t.insert(k, x), seq![x] + s, seq![(k, v)] + e)
{
    let (u, q, f) = (t.insert(k, x), seq![x] + s, seq![(k, v)] + e);
    assert forall|j: int| 0 <= j < f.len() implies #[trigger] keyed(u, q, f, j) by { if j > 0 { assert(keyed(t, s, e, j - 1)); } }
    assert forall|h: K| #[trigger] u.contains_key(h) implies holds(f, h) by {
        if h == k { assert(f[0].0 == k); } else { let j = place(e, h); assert(f[j + 1].0 == h); }
    }
}
pub proof fn lemma_raise<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, x: Ptr, k: K, v: V)
    requires indexed(t, s, e), t.contains_key(k), !s.remove(place(e, k)).contains(x)
    ensures indexed(t.insert(k, x), seq![x] + s.remove(place(e, k)), seq![(k, v)] + e.remove(place(e, k)))
{
    lemma_place(t, s, e, k);
    let i = place(e, k);
    lemma_drop(t, s, e, i);
    lemma_add(t.remove(k), s.remove(i), e.remove(i), x, k, v);
    assert(t.remove(k).insert(k, x) =~= t.insert(k, x));
}
pub proof fn lemma_raises<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, k: K)
    requires indexed(t, s, e), t.contains_key(k)
    ensures forall|x: Ptr, v: V| #![trigger t.insert(k, x), Seq::<(K, V)>::empty().push((k, v))] !s.remove(place(e, k)).contains(x) ==> indexed(t.insert(k, x), seq![x] + s.remove(place(e, k)), seq![(k, v)] + e.remove(place(e, k)))
{
    assert forall|x: Ptr, v: V| !s.remove(place(e, k)).contains(x) implies indexed(#[trigger] t.insert(k, x), seq![x] + s.remove(place(e, k)), #[trigger] Seq::<(K, V)>::empty().push((k, v)) + e.remove(place(e, k))) by { lemma_raise(t, s, e, x, k, v); }
}
/// only the keys matter
pub broadcast proof fn lemma_keys<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, f: Seq<(K, V)>)
    requires #[trigger] indexed(t, s, e), f.len() == e.len(), forall|i: int| 0 <= i < e.len() ==> (#[trigger] f[i]).0 == e[i].0
    ensures #[trigger] indexed(t, s, f)
{
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] keyed(t, s, f, i) by { assert(keyed(t, s, e, i)); }
    assert forall|k: K| #[trigger] t.contains_key(k) implies holds(f, k) by { let i = place(e, k); assert(f[i].0 == k); }
}
pub proof fn lemma_adds<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, k: K, v: V)
    requires indexed(t, s, e), !t.contains_key(k)
    ensures forall|x: Ptr| #![trigger t.insert(k, x)] !s.contains(x) ==> indexed(t.insert(k, x), seq![x] + s, seq![(k, v)] + e)
{
    assert forall|x: Ptr| !s.contains(x) implies indexed(#[trigger] t.insert(k, x), seq![x] + s, seq![(k, v)] + e) by { lemma_add(t, s, e, x, k, v); }
}
pub proof fn lemma_evict<K, V>(t: Map<K, Ptr>, s: Seq<Ptr>, e: Seq<(K, V)>, k: K, v: V)
    requires indexed(t, s, e), !t.contains_key(k), e.len() > 0
    ensures forall|x: Ptr| #![trigger t.remove(e.last().0).insert(k, x)] !s.drop_last().contains(x) ==> indexed(t.remove(e.last().0).insert(k, x), seq![x] + s.drop_last(), seq![(k, v)] + e.drop_last())
{
    let n = e.len() - 1;
    lemma_drop(t, s, e, n);
    assert(s.remove(n) =~= s.drop_last());
    assert(e.remove(n) =~= e.drop_last());
    lemma_adds(t.remove(e.last().0), s.drop_last(), e.drop_last(), k, v);
}
//@ type LruCache
//@ global
impl<K, V> LruCache<K, V> where K: Eq + Hash + Clone + Serialize {
    /// the entries, the one used last first
    pub open spec fn entries(&self) -> Seq<(K, V)> { self.list.items() }
    pub open spec fn wf(&self) -> bool {
        &&& self.list.wf() && indexed(self.table@, self.list.nodes(), self.list.items())
        &&& 0 < self.capacity && self.entries().len() <= self.capacity
        &&& obeys_key_model::<K>() && (forall|a: &K, b: K| #[trigger] call_ensures(K::clone, (a,), b) ==> *a == b)
    }
}
//@ fn LruCache::raise_key
//@ opt index_inline LinkedList list
//@ spec
    requires old(list).wf(), old(list).nodes().contains(*old(table_node_ref)), old(list).items().len() <= u32::MAX
    ensures final(list).wf(), final(table_node_ref).0 < final(list).memory@.len() && final(list).at(*final(table_node_ref)).data == Some(final(list).items()[0]), ({
        let k = old(list).nodes().index_of(*old(table_node_ref));
        let e = old(list).items();
        &&& final(list).nodes() =~= seq![*final(table_node_ref)] + old(list).nodes().remove(k)
        &&& !old(list).nodes().remove(k).contains(*final(table_node_ref))
        &&& final(list).items() =~= seq![(e[k].0, match val { Some(v) => v, None => e[k].1 })] + e.remove(k)
    })
//@ fn LruCache::new
//@ ret r
//@ spec
    requires 0 < capacity <= u32::MAX, obeys_key_model::<K>() && (forall|a: &K, b: K| #[trigger] call_ensures(K::clone, (a,), b) ==> *a == b)
    ensures r.wf(), r.capacity == capacity, r.entries() =~= Seq::<(K, V)>::empty()
//@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ fn LruCache::len
//@ ret r
//@ spec
    ensures self.wf() ==> r == self.entries().len()
//@ fn LruCache::lookup
//@ opt opt_map
//@ opt index_inline LinkedList list
//@ ret r
//@ spec
    requires self.wf()
    ensures r == (if holds(self.entries(), *key) { Some(&self.entries()[place(self.entries(), *key)].1) } else { None })
//@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { lemma_wf(self.list); lemma_place(self.table@, self.list.nodes(), self.list.items(), *key); if self.table@.contains_key(*key) { lemma_item(self.list, place(self.entries(), *key)); } }
//@ fn LruCache::get
//@ opt opt_map
//@ opt index_inline LinkedList list
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity, ({
        let e = old(self).entries();
        if holds(e, *key) { r == Some(&e[place(e, *key)].1) && final(self).entries() =~= seq![e[place(e, *key)]] + e.remove(place(e, *key)) } else { r is None && final(self).entries() =~= e }
    })
//@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost (t, s, e) = (self.table@, self.list.nodes(), self.list.items());
    proof { lemma_wf(self.list); lemma_place(t, s, e, *key); if holds(e, *key) { lemma_raises(t, s, e, *key); } }
//@ fn LruCache::get_mut
//@ opt opt_map
//@ opt index_inline LinkedList list
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity, ({
        let e = old(self).entries();
        if holds(e, *key) { r is Some && *r->0 == e[place(e, *key)].1 && final(self).entries() =~= seq![(*key, *final(r->0))] + e.remove(place(e, *key)) } else { r is None && final(self).entries() =~= e }
    })
//@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, lemma_front_changed, lemma_keys;
    let ghost (t, s, e) = (self.table@, self.list.nodes(), self.list.items());
    proof { lemma_wf(self.list); lemma_place(t, s, e, *key); if holds(e, *key) { lemma_raises(t, s, e, *key); } }
//@ fn LruCache::remove
//@ opt opt_map
//@ opt index_inline LinkedList list
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity, ({
        let e = old(self).entries();
        if holds(e, *key) { r == Some(e[place(e, *key)].1) && final(self).entries() =~= e.remove(place(e, *key)) } else { r is None && final(self).entries() =~= e }
    })
//@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost (t, s, e) = (self.table@, self.list.nodes(), self.list.items());
    proof { lemma_wf(self.list); lemma_place(t, s, e, *key); if holds(e, *key) { lemma_drop(t, s, e, place(e, *key)); assert(t.insert(*key, t[*key]) =~= t); } else { assert(t.remove(*key) =~= t); } }
//@ fn LruCache::put
//@ opt opt_map
//@ opt index_inline LinkedList list
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity, ({
        let e = old(self).entries();
        final(self).entries() =~= seq![(key, val)] + (if holds(e, key) { e.remove(place(e, key)) } else if e.len() == old(self).capacity { e.drop_last() } else { e })
    })
//@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost (t, s, e) = (self.table@, self.list.nodes(), self.list.items());
    proof {
        lemma_wf(self.list);
        lemma_place(t, s, e, key);
        if holds(e, key) { lemma_raises(t, s, e, key); }
        else if e.len() == self.capacity { lemma_evict(t, s, e, key, val); } else { lemma_adds(t, s, e, key, val); }
    }
//@ global
/// what was put last is found, and stays found while it is looked at
pub fn prog_put_get<K: Eq + Hash + Clone + Serialize, V>(c: &mut LruCache<K, V>, key: K, val: V, other: &K)
    requires old(c).wf()
    ensures final(c).wf(), final(c).entries().len() <= final(c).capacity, holds(final(c).entries(), key) == (*other != key)
{
    let ghost w = val;
    let ghost k = key;
    c.put(key, val);
    proof { lemma_first(c.entries(), k); let e = c.entries(); lemma_wf(c.list); lemma_place(c.table@, c.list.nodes(), e, *other); if holds(e, *other) { lemma_drop(c.table@, c.list.nodes(), e, place(e, *other)); } }
    assert(holds(c.entries(), k) && c.entries()[place(c.entries(), k)].0 == k);
    let ghost e = c.entries();
    let r = c.remove(other);
    proof {
        if *other != k { if holds(e, *other) { let i = place(e, *other); assert(e[0].0 == k && i > 0); assert(c.entries()[0] == e[0]); } else { assert(c.entries()[0] == e[0]); } }
        else { assert(!holds(c.entries(), k)); }
    }
}
proof fn lemma_first<K, V>(e: Seq<(K, V)>, k: K)
    requires e.len() > 0, e[0].0 == k
    ensures holds(e, k)
{}
/// a cache of one entry holds the last one put
pub fn prog_single_entry<V>(x: V, y: V) -> (r: Option<V>)
    ensures r == Some(y)
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let mut c: LruCache<u32, V> = LruCache::new(1);
    c.put(1, x);
    assert(!holds(c.entries(), 2u32));
    c.put(2, y);
    assert(c.entries()[0].0 == 2u32);
    c.remove(&2)
}
