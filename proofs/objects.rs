//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
use std::collections::VecDeque;
//@include mirtypes
//@include wire_spec
//@contracts structs counts
//@include slots_text
verus! {

global size_of usize == 8;

/// VecDeque::from of an array of one element
#[verifier::external_body]
pub fn deque_of<T>(x: T) -> (r: VecDeque<T>)
    ensures r@ == seq![x],
{ VecDeque::from([x]) }

/// what extend does with each element
pub trait ExtendOne<T> {
    spec fn held(&self) -> Seq<T>;
    fn extend_one_(&mut self, x: T) ensures final(self).held() == old(self).held().push(x);
}
impl<T> ExtendOne<T> for Vec<T> {
    open spec fn held(&self) -> Seq<T> { self@ }
    fn extend_one_(&mut self, x: T) { self.push(x) }
}
impl<T> ExtendOne<T> for VecDeque<T> {
    open spec fn held(&self) -> Seq<T> { self@ }
    fn extend_one_(&mut self, x: T) { self.push_back(x) }
}

/// the objects of the structs still to be looked at
pub open spec fn waiting(q: Seq<(String, &StructInner)>) -> Multiset<Leaf>
    decreases q.len()
{
    if q.len() == 0 { Multiset::empty() } else { leaves(*q[0].1, q[0].0@).add(waiting(q.drop_first())) }
}

/// the structs in an element, itself included
pub open spec fn tnodes(t: Type) -> nat
    decreases t
{
    match t {
        Type::Struct(s) => match s { Struct::Small(i) => 1 + snodes(i, i.fields@.len() as int), Struct::Big(i) => 1 + snodes(i, i.fields@.len() as int) },
        _ => 0,
    }
}
pub open spec fn snodes(s: StructInner, k: int) -> nat
    decreases s, k
{
    if k <= 0 || k > s.fields@.len() { 0 } else { snodes(s, k - 1) + tnodes(s.fields[k - 1].val.0) * (s.fields[k - 1].val.1@ as nat) }
}
pub open spec fn nodes(q: Seq<(String, &StructInner)>) -> nat
    decreases q.len()
{
    if q.len() == 0 { 0 } else { 1 + snodes(*q[0].1, q[0].1.fields@.len() as int) + nodes(q.drop_first()) }
}

pub proof fn tleaves_len(t: Type, path: Seq<char>)
    ensures tleaves(t, path).len() == tobjs(t),
    decreases t
{
    match t {
        Type::Struct(s) => match s {
            Struct::Small(i) => sleaves_len(i, i.fields@.len() as int, path + "."@),
            Struct::Big(i) => sleaves_len(i, i.fields@.len() as int, path + "."@),
        },
        _ => {}
    }
}
pub proof fn eleaves_len(f: StructField, n: int, prefix: Seq<char>)
    requires n >= 0,
    ensures eleaves(f, n, prefix).len() == tobjs(f.val.0) * n,
        tobjs(f.val.0) == 0 ==> eleaves(f, n, prefix) == Multiset::<Leaf>::empty(),
    decreases f, n
{
    if n > 0 {
        eleaves_len(f, n - 1, prefix);
        tleaves_len(f.val.0, at_path(f, n - 1, prefix));
        assert(tobjs(f.val.0) * (n - 1) + tobjs(f.val.0) == tobjs(f.val.0) * n) by (nonlinear_arith);
    }
    assert(tobjs(f.val.0) == 0 ==> tobjs(f.val.0) * n == 0) by (nonlinear_arith);
}
pub proof fn sleaves_len(s: StructInner, k: int, prefix: Seq<char>)
    ensures sleaves(s, k, prefix).len() == sobjs(s, k),
    decreases s, k
{
    if 0 < k <= s.fields@.len() {
        sleaves_len(s, k - 1, prefix);
        assert(decreases_to!(s => s.fields@[k - 1]));
        eleaves_len(s.fields[k - 1], s.fields[k - 1].val.1@ as int, prefix);
    }
}

pub proof fn add_assoc(a: Multiset<Leaf>, b: Multiset<Leaf>, c: Multiset<Leaf>)
    ensures a.add(b).add(c) == a.add(b.add(c)),
{
    assert(a.add(b).add(c) =~= a.add(b.add(c)));
}

pub proof fn waiting_push(q: Seq<(String, &StructInner)>, x: (String, &StructInner))
    ensures waiting(q.push(x)) == waiting(q).add(leaves(*x.1, x.0@)),
        nodes(q.push(x)) == nodes(q) + 1 + snodes(*x.1, x.1.fields@.len() as int),
    decreases q.len()
{
    if q.len() > 0 {
        waiting_push(q.drop_first(), x);
        assert(q.push(x).drop_first() =~= q.drop_first().push(x));
        assert(waiting(q.push(x)) =~= waiting(q).add(leaves(*x.1, x.0@)));
    } else {
        assert(q.push(x).drop_first() =~= q);
        assert(waiting(q.push(x)) =~= waiting(q).add(leaves(*x.1, x.0@)));
    }
}

pub proof fn leaves_listed_push(o: Seq<(String, Option<&str>)>, x: (String, Option<&str>))
    ensures leaves_listed(o.push(x)) == leaves_listed(o).insert(leaf_of(x)),
{
    assert(o.push(x).drop_last() =~= o);
}

pub proof fn leaves_listed_len(o: Seq<(String, Option<&str>)>)
    ensures leaves_listed(o).len() == o.len(),
    decreases o.len()
{
    if o.len() > 0 { leaves_listed_len(o.drop_last()); }
}

}
//@include object_paths
fn main() {}
