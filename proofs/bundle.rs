//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
//@include mirtypes
//@include wire_spec
//@contracts structs counts
//@include bundle_spec
//@include bundle_new
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- std, derives: assumed

/// slice::sort_by is a stable sort: `ix` says where each element comes from
#[verifier::external_body]
pub fn sort_by_<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> #[trigger] call_requires(f, (&old(v)@[i], &old(v)@[j])),
    ensures sorted_from(old(v)@, final(v)@, f),
{ v.sort_by(f) }

/// sort_unstable_by: equal elements in any order
#[verifier::external_body]
pub fn sort_unstable_by_<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> #[trigger] call_requires(f, (&old(v)@[i], &old(v)@[j])),
    ensures exists|ix: Seq<int>| #[trigger] is_perm(ix, old(v)@.len()) && final(v)@.len() == old(v)@.len()
        && (forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[ix[i]])
        && (forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i < j < final(v)@.len() ==>
            exists|o: Ordering| #[trigger] call_ensures(f, (&final(v)@[i], &final(v)@[j]), o) && (o == Ordering::Less || o == Ordering::Equal)),
{ v.sort_unstable_by(f) }

pub open spec fn is_perm(ix: Seq<int>, n: nat) -> bool {
    &&& ix.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] ix[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> ix[i] != ix[j]
}

pub open spec fn sorted_from<T, F: Fn(&T, &T) -> Ordering>(a: Seq<T>, b: Seq<T>, f: F) -> bool {
    exists|ix: Seq<int>| #[trigger] is_perm(ix, a.len()) && b.len() == a.len()
        && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[ix[i]])
        && (forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() ==>
            exists|o: Ordering| #[trigger] call_ensures(f, (&b[i], &b[j]), o) && (o == Ordering::Less || (o == Ordering::Equal && ix[i] < ix[j])))
}

impl Clone for StructInner {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

// ---------------------------------------------------------------- the bundle

/*@ idlc_codegen/src/serialization.rs | fn Type::size | ren_Type_PType
name packed Type::size
ret r
spec { requires pt_ok(*self), ensures r == ptsize(*self) }
@*/

/*@ idlc_codegen/src/serialization.rs | fn Ord/Type::cmp | ren_Type_PType
ret r
spec {
    requires pt_ok(*self), pt_ok(*other),
    ensures r == ord(ptsize(*self), ptsize(*other))
}
@*/

pub open spec fn ord(a: nat, b: nat) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

/*@ idlc_codegen/src/serialization.rs | fn Ord/Pair::cmp | ren_Type_PType
ret r
spec {
    requires pt_ok(self.ty), pt_ok(other.ty),
    ensures r == ord(ptsize(self.ty), ptsize(other.ty))
}
@*/

/*@ idlc_codegen/src/serialization.rs | fn Pair::new | ren_Type_PType
ret r
spec { ensures r.ident == *ident, r.ty == ty, r.nth_param == nth_param }
@*/

impl PackedPrimitives {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.inputs@.len() == 0, r.outputs@.len() == 0, r.input_size == 0, r.output_size == 0,
    { unimplemented!() }
}

pub open spec fn pushed(v: Seq<Pair>, w: Seq<Pair>, ident: Ident, ty: PType) -> bool {
    w == v.push(Pair { ident, ty, nth_param: v.len() as usize })
}

/*@ idlc_codegen/src/serialization.rs | impl ParameterVisitor PackedPrimitives | ren_Type_PType,inherit=idlc_codegen/src/functions.rs#ParameterVisitor
in visit_input_primitive spec {
    requires old(self).input_size + 16 <= usize::MAX,
    ensures pushed(old(self).inputs@, final(self).inputs@, *ident, PType::Primitive(ty)), final(self).input_size == old(self).input_size + psz(ty),
        final(self).outputs == old(self).outputs, final(self).output_size == old(self).output_size,
}
in visit_output_primitive spec {
    requires old(self).output_size + 16 <= usize::MAX,
    ensures pushed(old(self).outputs@, final(self).outputs@, *ident, PType::Primitive(ty)), final(self).output_size == old(self).output_size + psz(ty),
        final(self).inputs == old(self).inputs, final(self).input_size == old(self).input_size,
}
in visit_input_small_struct spec {
    requires old(self).input_size + 16 <= usize::MAX, pt_ok(PType::SmallStruct(*ty)),
    ensures pushed(old(self).inputs@, final(self).inputs@, *ident, PType::SmallStruct(*ty)), final(self).input_size == old(self).input_size + size_of_struct(*ty),
        final(self).outputs == old(self).outputs, final(self).output_size == old(self).output_size,
}
in visit_output_small_struct spec {
    requires old(self).output_size + 16 <= usize::MAX, pt_ok(PType::SmallStruct(*ty)),
    ensures pushed(old(self).outputs@, final(self).outputs@, *ident, PType::SmallStruct(*ty)), final(self).output_size == old(self).output_size + size_of_struct(*ty),
        final(self).inputs == old(self).inputs, final(self).input_size == old(self).input_size,
}
in visit_input_primitive_buffer spec { ensures *final(self) == *old(self) }
in visit_input_untyped_buffer spec { ensures *final(self) == *old(self) }
in visit_input_struct_buffer spec { ensures *final(self) == *old(self) }
in visit_input_big_struct spec { ensures *final(self) == *old(self) }
in visit_input_object spec { ensures *final(self) == *old(self) }
in visit_input_object_array spec { ensures *final(self) == *old(self) }
in visit_output_primitive_buffer spec { ensures *final(self) == *old(self) }
in visit_output_untyped_buffer spec { ensures *final(self) == *old(self) }
in visit_output_struct_buffer spec { ensures *final(self) == *old(self) }
in visit_output_big_struct spec { ensures *final(self) == *old(self) }
in visit_output_object spec { ensures *final(self) == *old(self) }
in visit_output_object_array spec { ensures *final(self) == *old(self) }
@*/

// ---------------------------------------------------------------- the walk over the parameters

/*@ idlc_codegen/src/functions.rs | fn Param::visit | ren_Param_CgParam,ref_pat
name Param::visit::<PackedPrimitives>
sub fn visit<V: ParameterVisitor> => fn visit_packed
sub impl Iterator<Item = CgParam<'a>> => Vec<CgParam<'a>>, Ghost(ps): Ghost<Seq<Param>>
sub visitor: &mut V => visitor: &mut PackedPrimitives
spec {
    requires plain(params@, ps), wf_params(ps), arrays_ok(ps), ps.len() <= u32::MAX,
        old(visitor).inputs@.len() == 0, old(visitor).outputs@.len() == 0, old(visitor).input_size == 0, old(visitor).output_size == 0,
    ensures
        listed(final(visitor).inputs@, smalls(ps, true, ps.len() as int)),
        listed(final(visitor).outputs@, smalls(ps, false, ps.len() as int)),
        final(visitor).input_size == small_bytes(ps, true, ps.len() as int),
        final(visitor).output_size == small_bytes(ps, false, ps.len() as int),
}
loop 0 {
    invariant
        it0.seq() == params@, plain(params@, ps), wf_params(ps), arrays_ok(ps), ps.len() <= u32::MAX,
        listed(visitor.inputs@, smalls(ps, true, it0.index())),
        listed(visitor.outputs@, smalls(ps, false, it0.index())),
        visitor.input_size == small_bytes(ps, true, it0.index()),
        visitor.output_size == small_bytes(ps, false, it0.index()),
}
body 0 {
    proof {
        let k = it0.index();
        assert(params@[k] == CgParam::Params(&ps[k]));
        assert(wf_type(p_ty(ps[k])));
        assert(p_arr(ps[k]) ==> !(p_ty(ps[k]) is UntypedBuffer));
        small_bytes_bound(ps, true, k);
        small_bytes_bound(ps, false, k);
        smalls_len(ps, true, k);
        smalls_len(ps, false, k);
        if p_small(ps[k]) { small_size(ps[k]); }
    }
}
@*/

/*@ idlc_codegen/src/functions.rs | fn visit_params | ren_Param_CgParam
name visit_params::<PackedPrimitives>
sub fn visit_params<V: ParameterVisitor> => fn visit_params_packed
sub visitor: &mut V => visitor: &mut PackedPrimitives
sub CgParam::visit => CgParam::visit_packed
sub function.params.iter().map(CgParam::Params) => as_params(&function.params), Ghost(function.params@)
spec {
    requires wf_params(function.params@), arrays_ok(function.params@), function.params@.len() <= u32::MAX,
        old(visitor).inputs@.len() == 0, old(visitor).outputs@.len() == 0, old(visitor).input_size == 0, old(visitor).output_size == 0,
    ensures
        listed(final(visitor).inputs@, smalls(function.params@, true, function.params@.len() as int)),
        listed(final(visitor).outputs@, smalls(function.params@, false, function.params@.len() as int)),
        final(visitor).input_size == small_bytes(function.params@, true, function.params@.len() as int),
        final(visitor).output_size == small_bytes(function.params@, false, function.params@.len() as int),
}
@*/

pub proof fn smalls_ok(p: Seq<Param>, dir: bool, k: int)
    requires wf_params(p), 0 <= k <= p.len(),
    ensures forall|i: int| 0 <= i < smalls(p, dir, k).len() ==> pt_ok(ptype(#[trigger] smalls(p, dir, k)[i])),
    decreases k
{
    if k > 0 {
        smalls_ok(p, dir, k - 1);
        assert(wf_type(p_ty(p[k - 1])));
        if p_small(p[k - 1]) { small_size(p[k - 1]); }
    }
}

pub proof fn listed_ok(v: Seq<Pair>, p: Seq<Param>, dir: bool)
    requires wf_params(p), listed(v, smalls(p, dir, p.len() as int)),
    ensures forall|i: int| 0 <= i < v.len() ==> pt_ok(#[trigger] v[i].ty),
{
    let m = smalls(p, dir, p.len() as int);
    smalls_ok(p, dir, p.len() as int);
    assert forall|i: int| 0 <= i < v.len() implies pt_ok(#[trigger] v[i].ty) by { assert(v[i].nth_param == i); assert(pt_ok(ptype(m[i]))); }
}

/// what a sort that compares by descending size makes of the list
pub open spec fn desc_from(a: Seq<Pair>, b: Seq<Pair>) -> bool {
    exists|ix: Seq<int>| #[trigger] is_perm(ix, a.len()) && b.len() == a.len()
        && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[ix[i]])
        && (forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() ==>
            ptsize(b[i].ty) > ptsize(b[j].ty) || (ptsize(b[i].ty) == ptsize(b[j].ty) && ix[i] < ix[j]))
}

pub proof fn sorted_bundle(a: Seq<Pair>, b: Seq<Pair>, p: Seq<Param>, dir: bool)
    requires wf_params(p), listed(a, smalls(p, dir, p.len() as int)), desc_from(a, b),
    ensures bundle_order(b, smalls(p, dir, p.len() as int)),
{
    let ix = choose|ix: Seq<int>| #[trigger] is_perm(ix, a.len()) && b.len() == a.len()
        && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[ix[i]])
        && (forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() ==>
            ptsize(b[i].ty) > ptsize(b[j].ty) || (ptsize(b[i].ty) == ptsize(b[j].ty) && ix[i] < ix[j]));
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i].nth_param == ix[i] by {
        assert(a[ix[i]].nth_param == ix[i]);
    }
}


}
fn main() {}
