// inheritance: chains of bases that end
verus! {

/// the base of every interface
pub type Bases = Map<Seq<char>, Option<Seq<char>>>;

/// the chain of ancestors from n on has at most k steps
pub open spec fn chain(b: Bases, n: Seq<char>, k: nat) -> bool
    decreases k
{
    !b.dom().contains(n) || b[n] is None || (k > 0 && chain(b, b[n]->Some_0, (k - 1) as nat))
}

/// the inheritance of n is finite
pub open spec fn ends(b: Bases, n: Seq<char>) -> bool { exists|k: nat| #[trigger] chain(b, n, k) }

pub open spec fn least(b: Bases, n: Seq<char>, k: nat) -> bool { chain(b, n, k) && (k == 0 || !chain(b, n, (k - 1) as nat)) }

pub closed spec fn depth(b: Bases, n: Seq<char>) -> nat { choose|k: nat| least(b, n, k) }

pub proof fn chain_longer(b: Bases, n: Seq<char>, k: nat, j: nat)
    requires chain(b, n, k), k <= j,
    ensures chain(b, n, j),
    decreases k
{
    if b.dom().contains(n) && b[n] is Some { chain_longer(b, b[n]->Some_0, (k - 1) as nat, (j - 1) as nat); }
}

proof fn some_least(b: Bases, n: Seq<char>, k: nat)
    requires chain(b, n, k),
    ensures least(b, n, depth(b, n)),
    decreases k
{
    if k == 0 || !chain(b, n, (k - 1) as nat) { assert(least(b, n, k)); } else { some_least(b, n, (k - 1) as nat); }
}

/// finite chains have a measure that goes down from a declared interface to its base
pub proof fn ends_means_descends(b: Bases, n: Seq<char>)
    requires b.dom().contains(n), b[n] is Some, ends(b, n),
    ensures depth(b, b[n]->Some_0) < depth(b, n), ends(b, b[n]->Some_0),
{
    let k0 = choose|k: nat| #[trigger] chain(b, n, k);
    some_least(b, n, k0);
    let k = depth(b, n);
    let m = b[n]->Some_0;
    assert(chain(b, m, (k - 1) as nat));
    some_least(b, m, (k - 1) as nat);
    let j = depth(b, m);
    if j >= k { chain_longer(b, m, (k - 1) as nat, (j - 1) as nat); }
}

}
