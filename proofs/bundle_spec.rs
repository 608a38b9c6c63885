// Bundles and the walk over the parameters: the types the two share, and the specification of C03.
verus! {

/*@ idlc_codegen/src/serialization.rs | enum Type | ren_Type_PType @*/
/*@ idlc_codegen/src/serialization.rs | struct Pair | ren_Type_PType @*/
/*@ idlc_codegen/src/serialization.rs | struct PackedPrimitives | ren_Type_PType @*/

pub open spec fn ptsize(t: PType) -> nat {
    match t { PType::Primitive(p) => psz(p), PType::SmallStruct(s) => size_of_struct(s) }
}

pub open spec fn pt_ok(t: PType) -> bool {
    match t { PType::Primitive(p) => true, PType::SmallStruct(s) => wf_struct(s, s.fields@.len() as int) && size_of_struct(s) <= 16 }
}

pub open spec fn ptype(p: Param) -> PType {
    match p_ty(p) { Type::Primitive(x) => PType::Primitive(x), Type::Struct(s) => PType::SmallStruct(inner_of(s)), _ => arbitrary() }
}

/// the small parameters among the first k of one direction, in declaration order
pub open spec fn smalls(p: Seq<Param>, dir: bool, k: int) -> Seq<Param>
    decreases k
{
    if k <= 0 { Seq::empty() } else if (p[k - 1] is In) == dir && p_small(p[k - 1]) { smalls(p, dir, k - 1).push(p[k - 1]) } else { smalls(p, dir, k - 1) }
}

pub open spec fn small_bytes(p: Seq<Param>, dir: bool, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { small_bytes(p, dir, k - 1) + (if (p[k - 1] is In) == dir && p_small(p[k - 1]) { tsize(p_ty(p[k - 1])) } else { 0 }) }
}

pub proof fn smalls_len(p: Seq<Param>, dir: bool, k: int)
    requires 0 <= k <= p.len(),
    ensures smalls(p, dir, k).len() == n_small(p, dir, k), n_small(p, dir, k) <= k,
    decreases k
{
    if k > 0 { smalls_len(p, dir, k - 1); }
}

pub proof fn small_bytes_bound(p: Seq<Param>, dir: bool, k: int)
    requires 0 <= k <= p.len(), wf_params(p),
    ensures small_bytes(p, dir, k) <= 16 * k,
    decreases k
{
    if k > 0 {
        small_bytes_bound(p, dir, k - 1);
        assert(wf_type(p_ty(p[k - 1])));
        if p_small(p[k - 1]) { small_size(p[k - 1]); }
    }
}

pub proof fn small_size(p: Param)
    requires wf_type(p_ty(p)), p_small(p),
    ensures tsize(p_ty(p)) <= 16, pt_ok(ptype(p)), ptsize(ptype(p)) == tsize(p_ty(p)),
{
}

/// element i of the list is small parameter number i of the declaration
pub open spec fn listed(v: Seq<Pair>, m: Seq<Param>) -> bool {
    &&& v.len() == m.len()
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].nth_param == i && v[i].ident == p_ident(m[i]) && v[i].ty == ptype(m[i])
}

/// the bundle of C03: the small parameters, each once, largest first, otherwise in declaration order
pub open spec fn bundle_order(v: Seq<Pair>, m: Seq<Param>) -> bool {
    &&& v.len() == m.len()
    &&& forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] v[i].nth_param < m.len() && v[i].ident == p_ident(m[v[i].nth_param as int]) && v[i].ty == ptype(m[v[i].nth_param as int])
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].nth_param != #[trigger] v[j].nth_param
    &&& forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==>
        ptsize(v[i].ty) > ptsize(v[j].ty) || (ptsize(v[i].ty) == ptsize(v[j].ty) && v[i].nth_param < v[j].nth_param)
}

/*@ idlc_codegen/src/functions.rs | enum Param | ren_Param_CgParam @*/

/// InterfaceVerifier: object arrays are bounded, arrays of buffers cannot be written
pub open spec fn arrays_ok(p: Seq<Param>) -> bool {
    forall|j: int| 0 <= j < p.len() ==> (p_arr(#[trigger] p[j]) ==> !(p_ty(p[j]) is UntypedBuffer) && (p_ty(p[j]) is Interface ==> p_cnt(p[j]) is Some))
}

/// `function.params.iter().map(Param::Params)`
pub fn as_params<'a>(v: &'a Vec<Param>) -> (r: Vec<CgParam<'a>>)
    ensures plain(r@, v@),
{
    let mut r: Vec<CgParam<'a>> = Vec::new();
    for i in 0..v.len()
        invariant r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == CgParam::Params(&v@[j]),
    {
        r.push(CgParam::Params(&v[i]));
    }
    r
}

pub open spec fn plain(r: Seq<CgParam<'_>>, v: Seq<Param>) -> bool {
    r.len() == v.len() && forall|j: int| 0 <= j < v.len() ==> #[trigger] r[j] == CgParam::Params(&v[j])
}

/// C03: which small parameters a bundle holds and in which order, and how long it is
pub open spec fn is_bundle(pp: PackedPrimitives, p: Seq<Param>) -> bool {
    &&& bundle_order(pp.inputs@, smalls(p, true, p.len() as int))
    &&& bundle_order(pp.outputs@, smalls(p, false, p.len() as int))
    &&& pp.input_size == small_bytes(p, true, p.len() as int)
    &&& pp.output_size == small_bytes(p, false, p.len() as int)
}

}
