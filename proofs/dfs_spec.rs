// depth first search along edges `e`, building the graph of the edges met (shared by Cycles and IDLStore)
verus! {

pub type Edges = spec_fn(Key, Key) -> bool;

/// only edges there are
pub open spec fn real<T>(g: Succ<T>, e: Edges) -> bool {
    forall|k: Key, j: Key| #[trigger] succ(g, k).contains(j) ==> e(k, j)
}

/// what the search keeps true: everything mentioned has been visited or is `next`
pub open spec fn state<T>(g: Succ<T>, v: Set<Key>, e: Edges, all: Set<Key>, next: Key) -> bool {
    &&& real(g, e)
    &&& v.subset_of(all)
    &&& forall|k: Key| #[trigger] g.dom().contains(k) ==> v.contains(k)
    &&& forall|k: Key, j: Key| #[trigger] succ(g, k).contains(j) ==> v.contains(j) || j == next
}

pub open spec fn grown<T>(a: Succ<T>, b: Succ<T>) -> bool {
    &&& a.dom().subset_of(b.dom())
    &&& forall|k: Key| #[trigger] succ(a, k).subset_of(succ(b, k))
}

pub proof fn grown_on<T>(a: Succ<T>, b: Succ<T>, c: Succ<T>)
    requires grown(a, b), grown(b, c),
    ensures grown(a, c),
{
    assert forall|k: Key| #[trigger] succ(a, k).subset_of(succ(c, k)) by { assert(succ(a, k).subset_of(succ(b, k))); assert(succ(b, k).subset_of(succ(c, k))); }
}

/// all edges from k are there, and where they lead has been visited
pub open spec fn done<T>(g: Succ<T>, v: Set<Key>, e: Edges, k: Key) -> bool {
    forall|j: Key| #[trigger] e(k, j) ==> succ(g, k).contains(j) && v.contains(j)
}

pub open spec fn all_done<T>(g: Succ<T>, v: Set<Key>, e: Edges, before: Set<Key>) -> bool {
    forall|k: Key| #[trigger] v.contains(k) && !before.contains(k) ==> done(g, v, e, k)
}

pub proof fn one_more<T>(g: Succ<T>, h: Succ<T>, v: Set<Key>, e: Edges, all: Set<Key>, me: Key, to: Key)
    requires state(g, v, e, all, me), v.contains(me), e(me, to), same_but(h, g, me), succ(h, me) == succ(g, me).insert(to),
    ensures state(h, v, e, all, to), grown(g, h),
{
    assert forall|k: Key, j: Key| #[trigger] succ(h, k).contains(j) implies e(k, j) && (v.contains(j) || j == to) by {
        if k != me { assert(succ(g, k).contains(j)); } else if j != to { assert(succ(g, me).contains(j)); }
    }
    assert forall|k: Key| #[trigger] succ(g, k).subset_of(succ(h, k)) by {}
}

pub proof fn still_done<T>(g: Succ<T>, h: Succ<T>, v: Set<Key>, w: Set<Key>, e: Edges, before: Set<Key>)
    requires all_done(g, v, e, before), all_done(h, w, e, v), grown(g, h), v.subset_of(w),
    ensures all_done(h, w, e, before),
{
    assert forall|k: Key| #[trigger] w.contains(k) && !before.contains(k) implies done(h, w, e, k) by {
        if v.contains(k) {
            assert(done(g, v, e, k));
            assert forall|j: Key| #[trigger] e(k, j) implies succ(h, k).contains(j) && w.contains(j) by {
                assert(succ(g, k).contains(j));
                assert(succ(g, k).subset_of(succ(h, k)));
            }
        }
    }
}

pub proof fn less_left(all: Set<Key>, v: Set<Key>, w: Set<Key>, me: Key)
    requires v.insert(me).subset_of(w), !v.contains(me), all.contains(me),
    ensures all.difference(w).len() < all.difference(v).len(),
{
    assert(all.difference(w).subset_of(all.difference(v).remove(me)));
    vstd::set_lib::lemma_len_subset(all.difference(w), all.difference(v).remove(me));
}

/// state between two nodes of the walk
pub open spec fn within<T>(g: Succ<T>, v: Set<Key>, e: Edges, all: Set<Key>) -> bool {
    &&& real(g, e)
    &&& v.subset_of(all)
    &&& forall|k: Key| #[trigger] g.dom().contains(k) ==> v.contains(k)
    &&& forall|k: Key, j: Key| #[trigger] succ(g, k).contains(j) ==> v.contains(j)
    &&& all_done(g, v, e, Set::<Key>::empty())
}

pub proof fn node_added<T>(g: Succ<T>, h: Succ<T>, v: Set<Key>, e: Edges, all: Set<Key>, k: Key)
    requires within(g, v, e, all), same_but(h, g, k), succ(h, k) == succ(g, k), v.contains(k),
    ensures within(h, v, e, all),
{
    assert forall|a: Key| #[trigger] succ(h, a) == succ(g, a) by {}
    assert forall|a: Key| #[trigger] v.contains(a) implies done(h, v, e, a) by { assert(done(g, v, e, a)); }
}

pub proof fn empty_within<T>(e: Edges, all: Set<Key>)
    ensures within(Map::<Key, HashSet<T>>::empty(), Set::<Key>::empty(), e, all),
{
}

}
