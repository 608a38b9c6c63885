//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
//@include mirtypes
//@include wire_spec
//@contracts structs counts
//@include bundle_spec
//@contracts verify_counts counts
//@include nameset
verus! {

global size_of usize == 8;

/*@ idlc_mir/src/mir.rs | enum Node | @*/
/*@ idlc_mir/src/mir.rs | struct Mir | @*/

// ---------------------------------------------------------------- specification: what an interface may declare

/// members in the order of the walk: the interface's own, then those of its ancestors
pub open spec fn walk(m: Interface) -> Seq<InterfaceNode>
    decreases m
{
    match m.base { None => m.nodes@, Some(b) => m.nodes@ + walk(*b) }
}

pub open spec fn above(m: Interface) -> Seq<InterfaceNode> { match m.base { Some(b) => walk(*b), None => Seq::empty() } }

pub open spec fn is_method(n: InterfaceNode) -> bool { n is Function }

pub open spec fn name_of(n: InterfaceNode) -> Seq<char> {
    match n { InterfaceNode::Const(c) => c.ident.ident@, InterfaceNode::Error(e) => e.ident.ident@, InterfaceNode::Function(f) => f.ident.ident@ }
}

/// C09: two members of a kind share a name, anywhere in the chain of ancestors (constants and errors are one kind)
pub open spec fn clash(a: InterfaceNode, b: InterfaceNode) -> bool { is_method(a) == is_method(b) && name_of(a) == name_of(b) }

pub open spec fn no_clash(w: Seq<InterfaceNode>, k: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < k ==> !clash(#[trigger] w[i], #[trigger] w[j])
}

/// the names of one kind among the first k members
pub open spec fn names(w: Seq<InterfaceNode>, methods: bool, k: int) -> Set<Seq<char>>
    decreases k
{
    if k <= 0 { Set::empty() } else if is_method(w[k - 1]) == methods { names(w, methods, k - 1).insert(name_of(w[k - 1])) } else { names(w, methods, k - 1) }
}

proof fn named(w: Seq<InterfaceNode>, methods: bool, k: int, n: Seq<char>)
    requires 0 <= k <= w.len(),
    ensures names(w, methods, k).contains(n) <==> exists|i: int| 0 <= i < k && is_method(#[trigger] w[i]) == methods && name_of(w[i]) == n,
    decreases k
{
    if k > 0 {
        named(w, methods, k - 1, n);
        if is_method(w[k - 1]) == methods && name_of(w[k - 1]) == n { assert(is_method(w[k - 1]) == methods && name_of(w[k - 1]) == n); }
    }
}

/// C10, C02: one array of objects at most in a direction, and none next to single objects; its length bounded; no bounded array of data and
/// no array of structs that hold objects
pub open spec fn obj_array(p: Param, dir: bool) -> bool { (p is In) == dir && p_arr(p) && p_obj(p) }

pub open spec fn obj_single(p: Param, dir: bool) -> bool { (p is In) == dir && !p_arr(p) && p_obj(p) }

pub open spec fn element_ok(p: Param) -> bool {
    p_arr(p) ==> match p_ty(p) {
        Type::UntypedBuffer => true,
        Type::Interface(_) => p_cnt(p) is Some,
        Type::Primitive(_) => p_cnt(p) is None,
        Type::Struct(s) => p_cnt(p) is None && objs(inner_of(s)) == 0,
    }
}

pub open spec fn one_array(p: Seq<Param>, dir: bool, k: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < k ==> !(obj_array(#[trigger] p[i], dir) && obj_array(#[trigger] p[j], dir))
}

pub open spec fn has_array(p: Seq<Param>, dir: bool, k: int) -> bool { exists|i: int| 0 <= i < k && obj_array(#[trigger] p[i], dir) }

pub open spec fn has_single(p: Seq<Param>, dir: bool, k: int) -> bool { exists|i: int| 0 <= i < k && obj_single(#[trigger] p[i], dir) }

pub open spec fn objects_ok(p: Seq<Param>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> element_ok(#[trigger] p[i])
    &&& one_array(p, true, k) && one_array(p, false, k)
}

pub open spec fn method_ok(p: Seq<Param>) -> bool {
    &&& fits(p)
    &&& objects_ok(p, p.len() as int)
    &&& !(has_array(p, true, p.len() as int) && has_single(p, true, p.len() as int))
    &&& !(has_array(p, false, p.len() as int) && has_single(p, false, p.len() as int))
}

pub open spec fn members_ok(w: Seq<InterfaceNode>, k: int) -> bool {
    forall|j: int| 0 <= j < k && (#[trigger] w[j]) is Function ==> method_ok(w[j]->Function_0.params@)
}

pub open spec fn interface_ok(m: Interface) -> bool { no_clash(walk(m), walk(m).len() as int) && members_ok(walk(m), walk(m).len() as int) }

/// what the back ends take for granted (units counts, order, bundle)
pub proof fn method_ok_gives_arrays_ok(p: Seq<Param>)
    requires method_ok(p), forall|j: int| 0 <= j < p.len() ==> (p_arr(#[trigger] p[j]) ==> !(p_ty(p[j]) is UntypedBuffer)),
    ensures arrays_ok(p), fits(p),
{
    assert forall|j: int| 0 <= j < p.len() && p_arr(#[trigger] p[j]) implies !(p_ty(p[j]) is UntypedBuffer) && (p_ty(p[j]) is Interface ==> p_cnt(p[j]) is Some) by {
        assert(element_ok(p[j]));
    }
}

pub open spec fn wf_members(w: Seq<InterfaceNode>) -> bool {
    forall|j: int| 0 <= j < w.len() && (#[trigger] w[j]) is Function ==> wf_params(w[j]->Function_0.params@)
}

// ---------------------------------------------------------------- the walk along the ancestors

pub trait AsDerefRc<T> {
    fn as_deref_(&self) -> (r: Option<&T>)
        ensures r == self.target();

    spec fn target(&self) -> Option<&T>;
}

impl<T> AsDerefRc<T> for Option<Rc<T>> {
    open spec fn target(&self) -> Option<&T> { match *self { Some(b) => Some(&*b), None => None } }

    fn as_deref_(&self) -> (r: Option<&T>)
    { match self { Some(b) => Some(&**b), None => None } }
}

/*@ idlc_mir/src/mir.rs | struct InterfaceIterator | @*/

/*@ idlc_mir/src/mir.rs | impl IntoIterator Interface | inherent
in into_iter spec { ensures result.interface == Some(self) }
@*/

/*@ idlc_mir/src/mir.rs | impl Iterator InterfaceIterator | inherent
in next spec {
    ensures
        result == old(self).interface,
        final(self).interface == (match old(self).interface { Some(i) => i.base.target(), None => None }),
}
@*/

// ---------------------------------------------------------------- the code

/*@ idlc_mir_passes/src/interface_verifier.rs | struct CollisionDetector | @*/

/*@ idlc_mir_passes/src/interface_verifier.rs | impl CollisionDetector |
in new spec { ensures result.inner@ == Set::<Seq<char>>::empty() }
in add_ident spec {
    requires old(self).inner@.contains(ident.ident@) ==> may_refuse(),
    ensures final(self).inner@ == old(self).inner@.insert(ident.ident@), !old(self).inner@.contains(ident.ident@),
}
@*/

/*@ idlc_mir_passes/src/interface_verifier.rs | struct InterfaceVerifier | @*/

pub open spec fn acceptable(m: Mir, n: int) -> bool {
    forall|j: int| 0 <= j < n && *(#[trigger] m.nodes@[j]) is Interface ==> interface_ok((*m.nodes@[j])->Interface_0)
}

/// may stop for this interface
pub open spec fn bad_means_refuse(m: Interface) -> bool { !interface_ok(m) ==> may_refuse() }

/*@ idlc_mir_passes/src/interface_verifier.rs | fn MirCompilerPass/InterfaceVerifier::run_pass | for_filter_map,for_into,opt_unwrap,rc_as_ref
ret r
sub Self::Output => ()
spec {
    requires
        forall|j: int| 0 <= j < old(self).mir.nodes@.len() && *(#[trigger] old(self).mir.nodes@[j]) is Interface ==> wf_members(walk((*old(self).mir.nodes@[j])->Interface_0)),
        forall|j: int| 0 <= j < old(self).mir.nodes@.len() && *(#[trigger] old(self).mir.nodes@[j]) is Interface ==> bad_means_refuse((*old(self).mir.nodes@[j])->Interface_0),
    ensures
        final(self).mir == old(self).mir,
        acceptable(*final(self).mir, final(self).mir.nodes@.len() as int),
}
loop 0 {
    invariant
        self.mir == old(self).mir,
        it0.seq().len() == self.mir.nodes@.len(),
        forall|j: int| 0 <= j < self.mir.nodes@.len() ==> *(#[trigger] it0.seq()[j]) == self.mir.nodes@[j],
        forall|j: int| 0 <= j < self.mir.nodes@.len() && *(#[trigger] self.mir.nodes@[j]) is Interface ==> wf_members(walk((*self.mir.nodes@[j])->Interface_0)),
        forall|j: int| 0 <= j < self.mir.nodes@.len() && *(#[trigger] self.mir.nodes@[j]) is Interface ==> bad_means_refuse((*self.mir.nodes@[j])->Interface_0),
        acceptable(*self.mir, it0.index()),
}
body 0 {
    proof { assert(*it0.seq()[it0.index()] == self.mir.nodes@[it0.index()]); }
}
before 1 {
    let ghost w = walk(*src);
    let ghost mut n: int = 0;
    proof { assert(Seq::<InterfaceNode>::empty() + w == w); }
}
loop 1 {
    invariant
        w == walk(*src),
        wf_members(w), bad_means_refuse(*src),
        0 <= n <= w.len(),
        w.skip(n) == (match verif_iter.interface { Some(m) => walk(*m), None => Seq::empty() }),
        consts.inner@ == names(w, false, n), functions.inner@ == names(w, true, n),
        no_clash(w, n), members_ok(w, n),
    ensures
        n == w.len(),
    decreases verif_iter.interface
}
body 1 {
    proof { assert(w.skip(n).len() == w.len() - n); }
}
before 2 {
    let ghost n0 = n;
    proof {
        assert(w.skip(n) == walk(*from));
        assert(walk(*from).len() >= from.nodes@.len());
        assert forall|j: int| 0 <= j < from.nodes@.len() implies #[trigger] from.nodes@[j] == w[n0 + j] by {
            assert(walk(*from)[j] == from.nodes@[j]);
            assert(w.skip(n)[j] == w[n + j]);
        }
    }
}
loop 2 {
    invariant
        w == walk(*src),
        wf_members(w), bad_means_refuse(*src),
        0 <= n0, n0 + from.nodes@.len() <= w.len(),
        it2.seq().len() == from.nodes@.len(),
        forall|j: int| 0 <= j < from.nodes@.len() ==> *(#[trigger] it2.seq()[j]) == from.nodes@[j],
        forall|j: int| 0 <= j < from.nodes@.len() ==> #[trigger] from.nodes@[j] == w[n0 + j],
        consts.inner@ == names(w, false, n0 + it2.index()), functions.inner@ == names(w, true, n0 + it2.index()),
        no_clash(w, n0 + it2.index()), members_ok(w, n0 + it2.index()),
}
body 2 {
    let ghost k = n0 + it2.index();
    proof {
        assert(*it2.seq()[it2.index()] == from.nodes@[it2.index()]);
        assert(from.nodes@[it2.index()] == w[k]);
        named(w, is_method(w[k]), k, name_of(w[k]));
        if !(no_clash(w, k + 1)) { assert(!no_clash(w, w.len() as int)); }
    }
}
after 2 {
    proof {
        n = n0 + from.nodes@.len();
        let rest = above(*from);
        assert(walk(*from) == from.nodes@ + rest);
        assert(w.skip(n) == w.skip(n0).skip(from.nodes@.len() as int));
        assert(w.skip(n) == rest);
    }
}
loop 3 {
    invariant
        it3.seq().len() == f.params@.len(),
        forall|j: int| 0 <= j < f.params@.len() ==> *(#[trigger] it3.seq()[j]) == f.params@[j],
        wf_params(f.params@),
        !method_ok(f.params@) ==> may_refuse(),
        args_array_in == has_array(f.params@, true, it3.index()), args_array_out == has_array(f.params@, false, it3.index()),
        args_value_in == has_single(f.params@, true, it3.index()), args_value_out == has_single(f.params@, false, it3.index()),
        objects_ok(f.params@, it3.index()),
}
body 3 {
    let ghost q = it3.index();
    proof { assert(*it3.seq()[q] == f.params@[q]); assert(wf_type(p_ty(f.params@[q]))); }
}
@*/

}
fn main() {}
