use std::hash::Hash;
verus! {

#[verifier::reject_recursive_types(T)]
/*@ idlc_ast_passes/src/graph.rs | struct Graph | @*/
/*@ idlc_ast_passes/src/graph.rs | type Ordering | @*/
/*@ idlc_ast_passes/src/graph.rs | type Cycle | @*/

pub type Succ<T> = Map<Key, HashSet<T>>;

pub open spec fn succ<T>(g: Succ<T>, k: Key) -> Set<Key> {
    if g.dom().contains(k) { g[k]@ } else { Set::empty() }
}

/// every key the graph mentions
pub open spec fn universe<T>(g: Succ<T>) -> Set<Key> {
    g.dom().union(g.dom().map(|k: Key| g[k]@).flatten())
}

proof fn mentioned<T>(g: Succ<T>, k: Key, j: Key)
    requires g.dom().contains(k), g[k]@.contains(j),
    ensures universe(g).contains(j), universe(g).contains(k),
{
    let s = g.dom().map(|k: Key| g[k]@);
    assert(s.contains(g[k]@));
    broadcast use vstd::set_lib::group_set_lib_default, vstd::set::group_set_lemmas;
}

/// consecutive keys are edges
pub open spec fn path<T>(g: Succ<T>, p: Seq<Key>) -> bool {
    forall|i: int| 0 < i < p.len() ==> succ(g, p[i - 1]).contains(#[trigger] p[i])
}

/// a path that comes back to where it has been
pub open spec fn is_cycle<T>(g: Succ<T>, c: Seq<Key>) -> bool {
    path(g, c) && exists|i: int| 0 <= i < c.len() - 1 && c[i] == c.last()
}

/// each key once, and behind everything it leads to
pub open spec fn topological<T>(g: Succ<T>, o: Seq<Key>) -> bool {
    &&& o.no_duplicates()
    &&& forall|i: int, k: Key| 0 <= i < o.len() && #[trigger] succ(g, o[i]).contains(k) ==> exists|j: int| 0 <= j < i && #[trigger] o[j] == k
}

pub open spec fn index(o: Seq<Key>, k: Key) -> int { choose|i: int| 0 <= i < o.len() && o[i] == k }

proof fn descends<T>(g: Succ<T>, o: Seq<Key>, p: Seq<Key>, a: int, b: int)
    requires topological(g, o), path(g, p), 0 <= a <= b < p.len(), o.contains(p[a]),
    ensures o.contains(p[b]), index(o, p[b]) + (b - a) <= index(o, p[a]),
    decreases b - a
{
    if a < b {
        descends(g, o, p, a, b - 1);
        let i = index(o, p[b - 1]);
        assert(0 <= i < o.len() && o[i] == p[b - 1]);
        assert(succ(g, o[i]).contains(p[b]));
        let j = choose|j: int| 0 <= j < i && #[trigger] o[j] == p[b];
        let m = index(o, p[b]);
        assert(o[j] == p[b]);
        assert(0 <= m < o.len() && o[m] == p[b]);
        assert(m == j);
    }
}

/// C12, C09: an order exists only where there is no cycle, however it is found
pub proof fn order_means_acyclic<T>(g: Succ<T>, o: Seq<Key>, c: Seq<Key>)
    requires topological(g, o), is_cycle(g, c), forall|k: Key| g.dom().contains(k) ==> #[trigger] o.contains(k),
    ensures false,
{
    let i = choose|i: int| 0 <= i < c.len() - 1 && c[i] == c.last();
    let b = c.len() - 1;
    assert(succ(g, c[i]).contains(c[i + 1]));
    assert(g.dom().contains(c[i]));
    descends(g, o, c, i, b);
}

}
