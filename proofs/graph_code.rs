// Graph: toposort gives an order exactly where there is no cycle
verus! {

#[verifier::opaque]
pub open spec fn state_ok<T>(g: Succ<T>, visited: Set<Key>, branch: Seq<Key>, order: Seq<Key>) -> bool {
    &&& visited.subset_of(universe(g))
    &&& topological(g, order)
    &&& branch.no_duplicates()
    &&& path(g, branch)
    &&& forall|k: Key| #![trigger visited.contains(k)] #![trigger branch.contains(k)] #![trigger order.contains(k)] visited.contains(k) <==> (branch.contains(k) || order.contains(k))
    &&& forall|k: Key| !(#[trigger] branch.contains(k) && #[trigger] order.contains(k))
}

proof fn enter<T>(g: Succ<T>, v: Set<Key>, b: Seq<Key>, o: Seq<Key>, n: Key)
    requires state_ok(g, v, b, o), universe(g).contains(n), !v.contains(n), b.len() > 0 ==> succ(g, b.last()).contains(n),
    ensures state_ok(g, v.insert(n), b.push(n), o),
        universe(g).difference(v.insert(n)).len() < universe(g).difference(v).len(),
{
    reveal(state_ok);
    assert(!b.contains(n) && !o.contains(n));
    assert forall|k: Key| #[trigger] b.push(n).contains(k) == (b.contains(k) || k == n) by {
        assert(b.push(n)[b.len() as int] == n);
        if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert(b.push(n)[i] == k); }
    }
    assert(universe(g).difference(v.insert(n)) == universe(g).difference(v).remove(n));
}

proof fn leave<T>(g: Succ<T>, v: Set<Key>, b: Seq<Key>, o: Seq<Key>, n: Key)
    requires state_ok(g, v, b.push(n), o), forall|k: Key| succ(g, n).contains(k) ==> #[trigger] o.contains(k),
    ensures state_ok(g, v, b, o.push(n)),
{
    reveal(state_ok);
    let q = o.push(n);
    let c = b.push(n);
    assert(c[b.len() as int] == n);
    assert(c.contains(n));
    assert forall|k: Key| #[trigger] b.contains(k) implies c.contains(k) && k != n by {
        let i = choose|i: int| 0 <= i < b.len() && b[i] == k;
        assert(c[i] == k);
    }
    assert forall|k: Key| #[trigger] c.contains(k) implies b.contains(k) || k == n by {
        let i = choose|i: int| 0 <= i < c.len() && c[i] == k;
        if i < b.len() { assert(b[i] == k); }
    }
    assert forall|k: Key| #[trigger] q.contains(k) == (o.contains(k) || k == n) by {
        assert(q[o.len() as int] == n);
        if o.contains(k) { let i = choose|i: int| 0 <= i < o.len() && o[i] == k; assert(q[i] == k); }
        if q.contains(k) { let i = choose|i: int| 0 <= i < q.len() && q[i] == k; if i < o.len() { assert(o[i] == k); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] != b[j] by { assert(c[i] != c[j]); }
    assert forall|i: int| 0 < i < b.len() implies succ(g, b[i - 1]).contains(#[trigger] b[i]) by { assert(c[i] == b[i]); assert(succ(g, c[i - 1]).contains(c[i])); }
    assert forall|i: int, k: Key| 0 <= i < q.len() && #[trigger] succ(g, q[i]).contains(k) implies exists|j: int| 0 <= j < i && #[trigger] q[j] == k by {
        if i < o.len() {
            assert(succ(g, o[i]).contains(k));
            let j = choose|j: int| 0 <= j < i && #[trigger] o[j] == k;
            assert(q[j] == k);
        } else {
            assert(o.contains(k));
            let j = choose|j: int| 0 <= j < o.len() && o[j] == k;
            assert(q[j] == k);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by {
        if j < o.len() { assert(o[i] != o[j]); } else { assert(o.contains(o[i])); }
    }
}

proof fn closed_path<T>(g: Succ<T>, v: Set<Key>, o: Seq<Key>, b: Seq<Key>, n: Key)
    requires state_ok(g, v, b, o), b.contains(n), b.len() > 0 ==> succ(g, b.last()).contains(n),
    ensures is_cycle(g, b.push(n)),
{
    reveal(state_ok);
    let c = b.push(n);
    let i = choose|i: int| 0 <= i < b.len() && b[i] == n;
    assert(c[i] == c.last());
    assert forall|i: int| 0 < i < c.len() implies succ(g, c[i - 1]).contains(#[trigger] c[i]) by {
        if i < b.len() { assert(succ(g, b[i - 1]).contains(b[i])); }
    }
}

proof fn any_copy<T>(g: Succ<T>, p: Seq<Key>, n: Key)
    requires is_cycle(g, p.push(n)),
    ensures forall|c: Seq<T>| c.len() == p.len() + 1 && key(c.last()) == n && (forall|i: int| 0 <= i < p.len() ==> p[i] == key(#[trigger] c[i])) ==> is_cycle(g, #[trigger] keys(c)),
{
    assert forall|c: Seq<T>| c.len() == p.len() + 1 && key(c.last()) == n && (forall|i: int| 0 <= i < p.len() ==> p[i] == key(#[trigger] c[i])) implies is_cycle(g, #[trigger] keys(c)) by {
        assert(keys(c) =~= p.push(n));
    }
}

proof fn seen<T>(g: Succ<T>, v: Set<Key>, b: Seq<Key>, o: Seq<Key>, n: Key)
    requires state_ok(g, v, b, o), v.contains(n), !b.contains(n),
    ensures o.contains(n),
{
    reveal(state_ok);
}

proof fn fewer<T>(g: Succ<T>, v: Set<Key>, w: Set<Key>)
    requires v.subset_of(w),
    ensures universe(g).difference(w).len() <= universe(g).difference(v).len(),
{
    assert(universe(g).difference(w).subset_of(universe(g).difference(v)));
    vstd::set_lib::lemma_len_subset(universe(g).difference(w), universe(g).difference(v));
}

proof fn pushed(o: Seq<Key>, n: Key)
    ensures o.push(n).contains(n), forall|k: Key| o.contains(k) ==> #[trigger] o.push(n).contains(k),
{
    assert(o.push(n)[o.len() as int] == n);
    assert forall|k: Key| o.contains(k) implies #[trigger] o.push(n).contains(k) by {
        let i = choose|i: int| 0 <= i < o.len() && o[i] == k;
        assert(o.push(n)[i] == k);
    }
}

/// C10: what is reported as a cycle is one
pub open spec fn reported<T, V>(g: Succ<T>, r: Result<V, Vec<T>>) -> bool { r is Err ==> is_cycle(g, keys((r->Err_0)@)) }

/// what is behind a node, unknown nodes included
pub open spec fn same_but<T>(a: Succ<T>, b: Succ<T>, k: Key) -> bool {
    a.dom() == b.dom().insert(k) && forall|j: Key| j != k ==> #[trigger] succ(a, j) == succ(b, j)
}

/*@ idlc_ast_passes/src/graph.rs | fn Graph::new |
ret r
spec { ensures r.nodes@ == Map::<Key, HashSet<T>>::empty(), }
@*/

/*@ idlc_ast_passes/src/graph.rs | fn Graph::add_edge | entry
spec {
    ensures same_but(final(self).nodes@, old(self).nodes@, key(from)),
        succ(final(self).nodes@, key(from)) == succ(old(self).nodes@, key(from)).insert(key(to)),
}
@*/

/*@ idlc_ast_passes/src/graph.rs | fn Graph::add_node | entry
spec {
    ensures same_but(final(self).nodes@, old(self).nodes@, key(node)),
        succ(final(self).nodes@, key(node)) == succ(old(self).nodes@, key(node)),
}
@*/

/*@ idlc_ast_passes/src/graph.rs | fn Graph::toposort_recursive | for_into
ret r
spec {
    requires
        state_ok(self.nodes@, old(visited)@, keys(old(branch)@), keys(old(order)@)),
        universe(self.nodes@).contains(key(*node)),
        old(branch)@.len() > 0 ==> succ(self.nodes@, key(old(branch)@.last())).contains(key(*node)),
    ensures
        reported(self.nodes@, r),
        r is Ok ==> {
                &&& state_ok(self.nodes@, final(visited)@, keys(final(branch)@), keys(final(order)@))
                &&& final(branch)@ == old(branch)@
                &&& old(visited)@.subset_of(final(visited)@)
                &&& forall|k: Key| keys(old(order)@).contains(k) ==> #[trigger] keys(final(order)@).contains(k)
                &&& keys(final(order)@).contains(key(*node))
            },
    decreases universe(self.nodes@).difference(old(visited)@).len()
}
start {
    broadcast use {clone_keeps_key, clone_keeps_key_too};
    let ghost n = key(*node);
    let ghost g = self.nodes@;
    let ghost mut v1 = visited@.insert(n);
    let ghost mut o1 = keys(order@);
    let ghost b0 = keys(branch@);
    proof {
        if branch@.len() > 0 { assert(b0.last() == key(branch@.last())); }
        if b0.contains(n) {
            closed_path(g, visited@, o1, b0, n);
            any_copy::<T>(g, b0, n);
        }
        else if !visited@.contains(n) { enter(g, visited@, b0, o1, n); }
        else { seen(g, visited@, b0, o1, n); }
    }
}
before 0 {
    let ghost b1 = branch@;
    proof { assert(keys(branch@) =~= b0.push(n)); assert(key(b1.last()) == n); }
}
body 0 {
    proof {
        if verif_iter.i < verif_iter.v@.len() {
            let k = key(*verif_iter.v@[verif_iter.i as int]);
            assert(refkeys(verif_iter.v@)[verif_iter.i as int] == k);
            assert(succ(g, n).contains(k));
            mentioned(g, n, k);
            fewer(g, old(visited)@.insert(n), visited@);
        }
    }
}
after 0 {
    proof {
        assert(keys(branch@) =~= b0.push(n));
        v1 = visited@;
        o1 = keys(order@);
        assert forall|k: Key| succ(g, n).contains(k) implies #[trigger] o1.contains(k) by {
            assert(refkeys(verif_iter.v@).contains(k));
            let j = choose|j: int| 0 <= j < verif_iter.v@.len() && refkeys(verif_iter.v@)[j] == k;
            assert(o1.contains(key(*verif_iter.v@[j])));
        }
    }
}
tail {
    proof {
        if !old(visited)@.contains(n) {
            leave(g, v1, b0, o1, n);
            assert(keys(order@) =~= o1.push(n));
            assert(branch@ =~= old(branch)@);
            assert(keys(branch@) =~= b0);
            pushed(o1, n);
        }
    }
}
loop 0 {
    invariant
        g == self.nodes@,
        verif_iter.wf(),
        refkeys(verif_iter.v@).to_set() == succ(g, n),
        g.dom().contains(n),
        state_ok(g, visited@, keys(branch@), keys(order@)),
        branch@ == b1, b1.len() > 0, key(b1.last()) == n, keys(b1) == b0.push(n),
        index == b1.len() - 1,
        old(visited)@.insert(n).subset_of(visited@), !old(visited)@.contains(n), universe(g).contains(n),
        universe(g).difference(old(visited)@.insert(n)).len() < universe(g).difference(old(visited)@).len(),
        b1.drop_last() == old(branch)@,
        forall|k: Key| keys(old(order)@).contains(k) ==> #[trigger] keys(order@).contains(k),
        forall|j: int| 0 <= j < verif_iter.i ==> keys(order@).contains(key(*#[trigger] verif_iter.v@[j])),
    ensures
        verif_iter.i == verif_iter.v@.len(),
    decreases verif_iter.v@.len() - verif_iter.i
}
@*/

/*@ idlc_ast_passes/src/graph.rs | fn Graph::toposort | for_into_all
ret r
spec {
    ensures
        reported(self.nodes@, r),
        r is Ok ==> topological(self.nodes@, keys((r->Ok_0)@)),
        r is Ok ==> forall|k: Key| self.nodes@.dom().contains(k) ==> #[trigger] keys((r->Ok_0)@).contains(k),
        r is Ok ==> forall|k: Key| #[trigger] keys((r->Ok_0)@).contains(k) ==> universe(self.nodes@).contains(k),
}
start { broadcast use {clone_keeps_key, clone_keeps_key_too}; proof { reveal(state_ok); } }
body 0 {
    proof {
        if verif_iter.i < verif_iter.v@.len() {
            reveal(state_ok);
            assert(keys(branch@).len() == 0);
            assert(refkeys(verif_iter.v@)[verif_iter.i as int] == key(*verif_iter.v@[verif_iter.i as int]));
            assert(self.nodes@.dom().contains(key(*verif_iter.v@[verif_iter.i as int])));
        }
    }
}
after 0 {
    proof {
        reveal(state_ok);
        assert forall|k: Key| self.nodes@.dom().contains(k) implies #[trigger] keys(order@).contains(k) by {
            assert(refkeys(verif_iter.v@).contains(k));
            let j = choose|j: int| 0 <= j < verif_iter.v@.len() && refkeys(verif_iter.v@)[j] == k;
            assert(keys(order@).contains(key(*verif_iter.v@[j])));
        }
    }
}
loop 0 {
    invariant
        verif_iter.wf(),
        refkeys(verif_iter.v@).to_set() == self.nodes@.dom(),
        branch@.len() == 0,
        state_ok(self.nodes@, visited@, keys(branch@), keys(order@)),
        forall|j: int| 0 <= j < verif_iter.i ==> keys(order@).contains(key(*#[trigger] verif_iter.v@[j])),
    ensures
        verif_iter.i == verif_iter.v@.len(),
    decreases verif_iter.v@.len() - verif_iter.i
}
@*/

}
