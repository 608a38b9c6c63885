// The order of the arguments of a call, and that they are as many as the counts say (C02, C03).
verus! {

// ---------------------------------------------------------------- the order of the arguments

/// objects embedded in structs, in declaration order
pub open spec fn embedded<'a>(p: Seq<Param>, dir: bool, k: int) -> Seq<CgParam<'a>>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        let r = embedded(p, dir, k - 1);
        let q = p[k - 1];
        if (q is In) == dir && !p_arr(q) && p_ty(q) is Struct && tobjs(p_ty(q)) > 0 {
            let i = p_ident(q);
            let s = inner_of(p_ty(q)->Struct_0);
            if dir { r.push(CgParam::InputStructObjects(&i, &s)) } else { r.push(CgParam::OutputStructObjects(&i, &s)) }
        } else { r }
    }
}

/// objects and object arrays, in declaration order
pub open spec fn objargs<'a>(p: Seq<Param>, dir: bool, k: int) -> Seq<CgParam<'a>>
    decreases k
{
    if k <= 0 { Seq::empty() } else if (p[k - 1] is In) == dir && p_obj(p[k - 1]) { objargs(p, dir, k - 1).push(CgParam::Params(&p[k - 1])) } else { objargs(p, dir, k - 1) }
}

/// discrete buffers, in declaration order: everything that is no object and in no bundle
pub open spec fn bufargs<'a>(p: Seq<Param>, dir: bool, bundled: bool, k: int) -> Seq<CgParam<'a>>
    decreases k
{
    if k <= 0 { Seq::empty() } else if (p[k - 1] is In) == dir && !p_obj(p[k - 1]) && !(p_small(p[k - 1]) && bundled) { bufargs(p, dir, bundled, k - 1).push(CgParam::Params(&p[k - 1])) } else { bufargs(p, dir, bundled, k - 1) }
}

/// the bundle, if two or more small parameters travel in this direction
pub open spec fn bundle<'a>(pp: PackedPrimitives, dir: bool) -> Seq<CgParam<'a>> {
    if dir { if pp.inputs@.len() > 1 { seq![CgParam::InputBundledPrimitives(&pp)] } else { Seq::empty() } }
    else { if pp.outputs@.len() > 1 { seq![CgParam::OutputBundledPrimitives(&pp)] } else { Seq::empty() } }
}

pub open spec fn bundled(pp: PackedPrimitives, dir: bool) -> bool {
    if dir { pp.inputs@.len() > 1 } else { pp.outputs@.len() > 1 }
}

pub open spec fn section_buffers<'a>(p: Seq<Param>, pp: PackedPrimitives, dir: bool) -> Seq<CgParam<'a>> {
    bundle(pp, dir) + bufargs(p, dir, bundled(pp, dir), p.len() as int)
}

pub open spec fn section_objects<'a>(p: Seq<Param>, dir: bool) -> Seq<CgParam<'a>> {
    embedded(p, dir, p.len() as int) + objargs(p, dir, p.len() as int)
}

/// C02: input buffers, output buffers, input objects, output objects
pub open spec fn canonical<'a>(p: Seq<Param>, pp: PackedPrimitives) -> Seq<CgParam<'a>> {
    section_buffers(p, pp, true) + section_buffers(p, pp, false) + section_objects(p, true) + section_objects(p, false)
}

// ---------------------------------------------------------------- counts and arguments agree

pub proof fn bufargs_len(p: Seq<Param>, dir: bool, bundled: bool, k: int)
    requires 0 <= k <= p.len(),
    ensures bufargs(p, dir, bundled, k).len() == n_buf(p, dir, k) + (if bundled { 0 } else { n_small(p, dir, k) }),
    decreases k
{
    if k > 0 { bufargs_len(p, dir, bundled, k - 1); }
}

pub proof fn smalls_count(p: Seq<Param>, dir: bool, k: int)
    requires 0 <= k <= p.len(),
    ensures smalls(p, dir, k).len() == n_small(p, dir, k),
    decreases k
{
    if k > 0 { smalls_count(p, dir, k - 1); }
}

/// C02: as many buffers are passed in a direction as the counts word says
pub proof fn buffers_agree(p: Seq<Param>, pp: PackedPrimitives, dir: bool)
    requires is_bundle(pp, p),
    ensures section_buffers(p, pp, dir).len() == buffers(p, dir),
{
    smalls_count(p, dir, p.len() as int);
    bufargs_len(p, dir, bundled(pp, dir), p.len() as int);
}

/// objects behind one entry of the argument list
pub open spec fn entry_objects(c: CgParam<'_>) -> nat {
    match c {
        CgParam::InputStructObjects(_, s) => objs(*s),
        CgParam::OutputStructObjects(_, s) => objs(*s),
        CgParam::Params(p) => if p_obj(*p) { p_objs(*p) } else { 0 },
        _ => 0,
    }
}

pub open spec fn entries_objects(c: Seq<CgParam<'_>>) -> nat
    decreases c.len()
{
    if c.len() == 0 { 0 } else { entries_objects(c.drop_last()) + entry_objects(c.last()) }
}

pub proof fn entries_push(c: Seq<CgParam<'_>>, x: CgParam<'_>)
    ensures entries_objects(c.push(x)) == entries_objects(c) + entry_objects(x),
{
    assert(c.push(x).drop_last() =~= c);
}

pub proof fn entries_sum(a: Seq<CgParam<'_>>, b: Seq<CgParam<'_>>)
    ensures entries_objects(a + b) == entries_objects(a) + entries_objects(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        entries_sum(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}

pub proof fn objects_sum(p: Seq<Param>, dir: bool, k: int)
    requires wf_params(p), 0 <= k <= p.len(),
    ensures entries_objects(embedded(p, dir, k)) + entries_objects(objargs(p, dir, k)) == n_obj(p, dir, k),
    decreases k
{
    if k > 0 {
        objects_sum(p, dir, k - 1);
        let q = p[k - 1];
        assert(wf_type(p_ty(q)));
        let e = embedded(p, dir, k - 1);
        let o = objargs(p, dir, k - 1);
        if (q is In) == dir {
            if p_obj(q) { entries_push(o, CgParam::Params(&q)); }
            if p_ty(q) is Struct && !p_arr(q) && tobjs(p_ty(q)) > 0 {
                let i = p_ident(q);
                let s = inner_of(p_ty(q)->Struct_0);
                entries_push(e, CgParam::InputStructObjects(&i, &s));
                entries_push(e, CgParam::OutputStructObjects(&i, &s));
            }
        }
    }
}

/// C02: as many objects are passed in a direction as the counts word says
pub proof fn objects_agree(p: Seq<Param>, dir: bool)
    requires wf_params(p),
    ensures entries_objects(section_objects(p, dir)) == objects(p, dir),
{
    objects_sum(p, dir, p.len() as int);
    entries_sum(embedded(p, dir, p.len() as int), objargs(p, dir, p.len() as int));
}

}
