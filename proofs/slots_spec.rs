// What a visitor makes of the arguments of a method: one slot of the argument array for each buffer, one for each object (C01, C03).
verus! {

/// the sections of the argument array
pub enum Slot { Bi, Bo, Oi, Oo }
pub open spec fn buf(dir: bool) -> Slot { if dir { Slot::Bi } else { Slot::Bo } }
pub open spec fn obj(dir: bool) -> Slot { if dir { Slot::Oi } else { Slot::Oo } }

/// n arguments of a kind
pub open spec fn all(s: Slot, n: nat) -> Seq<Slot> { Seq::new(n, |i: int| s) }

pub spec const ENOUGH: nat = 0x1000_0000;

/// the kinds of the arguments one entry stands for
pub open spec fn kinds(c: CgParam<'_>) -> Seq<Slot> {
    match c {
        CgParam::InputBundledPrimitives(_) => seq![Slot::Bi],
        CgParam::OutputBundledPrimitives(_) => seq![Slot::Bo],
        CgParam::InputStructObjects(_, s) => all(Slot::Oi, objs(*s)),
        CgParam::OutputStructObjects(_, s) => all(Slot::Oo, objs(*s)),
        CgParam::Params(p) => if p_obj(*p) { all(obj(*p is In), p_objs(*p)) } else { seq![buf(*p is In)] },
    }
}

pub open spec fn all_kinds(c: Seq<CgParam<'_>>) -> Seq<Slot>
    decreases c.len()
{
    if c.len() == 0 { Seq::empty() } else { all_kinds(c.drop_last()) + kinds(c.last()) }
}

/// the argument array the counts word announces: first the buffers, then the objects
pub open spec fn wire_kinds(p: Seq<Param>) -> Seq<Slot> {
    all(Slot::Bi, buffers(p, true)) + all(Slot::Bo, buffers(p, false)) + all(Slot::Oi, objects(p, true)) + all(Slot::Oo, objects(p, false))
}

/// the size of a struct is a number the generator can hold
pub open spec fn has_size(t: Type) -> bool { t is Struct ==> size_of_struct(inner_of(t->Struct_0)) <= usize::MAX }
pub open spec fn sizes_ok(p: Seq<Param>) -> bool { forall|j: int| 0 <= j < p.len() ==> has_size(#[trigger] p_ty(p[j])) }

pub open spec fn entry_ok(c: CgParam<'_>) -> bool {
    match c {
        CgParam::Params(p) => (p_arr(*p) ==> !(p_ty(*p) is UntypedBuffer) && (p_ty(*p) is Interface ==> p_cnt(*p) is Some)) && wf_type(p_ty(*p)) && has_size(p_ty(*p)),
        CgParam::InputStructObjects(_, s) => wf_struct(*s, s.fields@.len() as int),
        CgParam::OutputStructObjects(_, s) => wf_struct(*s, s.fields@.len() as int),
        _ => true,
    }
}
pub open spec fn entries_ok(c: Seq<CgParam<'_>>) -> bool { forall|i: int| 0 <= i < c.len() ==> entry_ok(#[trigger] c[i]) }

pub proof fn kinds_sum(a: Seq<CgParam<'_>>, b: Seq<CgParam<'_>>)
    ensures all_kinds(a + b) == all_kinds(a) + all_kinds(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(all_kinds(a + b) =~= all_kinds(a) + all_kinds(b)); } else {
        kinds_sum(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(all_kinds(a + b) =~= all_kinds(a) + all_kinds(b));
    }
}

pub proof fn kinds_push(c: Seq<CgParam<'_>>, x: CgParam<'_>)
    ensures all_kinds(c.push(x)) == all_kinds(c) + kinds(x),
{
    assert(c.push(x).drop_last() =~= c);
}

/// a list of entries of one kind
pub proof fn one_kind(c: Seq<CgParam<'_>>, s: Slot)
    requires forall|i: int| 0 <= i < c.len() ==> kinds(#[trigger] c[i]) =~= all(s, kinds(c[i]).len()),
    ensures all_kinds(c) == all(s, all_kinds(c).len()),
    decreases c.len()
{
    if c.len() > 0 {
        assert forall|i: int| 0 <= i < c.drop_last().len() implies kinds(#[trigger] c.drop_last()[i]) =~= all(s, kinds(c.drop_last()[i]).len()) by { assert(c.drop_last()[i] == c[i]); }
        one_kind(c.drop_last(), s);
    }
    assert(all_kinds(c) =~= all(s, all_kinds(c).len()));
}

/// no objects within structs
pub open spec fn no_inner(p: Seq<Param>) -> bool { forall|j: int| 0 <= j < p.len() && (#[trigger] p_ty(p[j])) is Struct && !p_arr(p[j]) ==> tobjs(p_ty(p[j])) == 0 }
pub open spec fn plain_entry(c: CgParam<'_>) -> bool { !(c is InputStructObjects) && !(c is OutputStructObjects) }
pub open spec fn plain_entries(c: Seq<CgParam<'_>>) -> bool { forall|i: int| 0 <= i < c.len() ==> plain_entry(#[trigger] c[i]) }

pub proof fn object_entries(p: Seq<Param>, dir: bool, k: int)
    requires 0 <= k <= p.len(), wf_params(p), arrays_ok(p), sizes_ok(p),
    ensures
        entries_ok(embedded(p, dir, k)), entries_ok(objargs(p, dir, k)),
        forall|i: int| 0 <= i < embedded(p, dir, k).len() ==> kinds(#[trigger] embedded(p, dir, k)[i]) =~= all(obj(dir), kinds(embedded(p, dir, k)[i]).len()),
        forall|i: int| 0 <= i < objargs(p, dir, k).len() ==> kinds(#[trigger] objargs(p, dir, k)[i]) =~= all(obj(dir), kinds(objargs(p, dir, k)[i]).len()),
        all_kinds(embedded(p, dir, k)).len() == entries_objects(embedded(p, dir, k)),
        all_kinds(objargs(p, dir, k)).len() == entries_objects(objargs(p, dir, k)),
        no_inner(p) ==> plain_entries(embedded(p, dir, k)), plain_entries(objargs(p, dir, k)),
    decreases k
{
    if k > 0 {
        object_entries(p, dir, k - 1);
        let q = p[k - 1];
        assert(wf_type(p_ty(q)) && has_size(p_ty(q)));
        assert(p_arr(q) ==> !(p_ty(q) is UntypedBuffer));
        let e = embedded(p, dir, k - 1);
        let o = objargs(p, dir, k - 1);
        if (q is In) == dir && !p_arr(q) && p_ty(q) is Struct && tobjs(p_ty(q)) > 0 {
            let i = p_ident(q);
            let s = inner_of(p_ty(q)->Struct_0);
            assert(wf_struct(s, s.fields@.len() as int));
            let x = if dir { CgParam::InputStructObjects(&i, &s) } else { CgParam::OutputStructObjects(&i, &s) };
            assert(embedded(p, dir, k) == e.push(x));
            kinds_push(e, x); entries_push(e, x);
        }
        if (q is In) == dir && p_obj(q) {
            assert(objargs(p, dir, k) == o.push(CgParam::Params(&p[k - 1])));
            kinds_push(o, CgParam::Params(&q)); entries_push(o, CgParam::Params(&q));
        }
    }
}

pub proof fn buffer_entries(p: Seq<Param>, dir: bool, bundled: bool, k: int)
    requires 0 <= k <= p.len(), wf_params(p), arrays_ok(p), sizes_ok(p),
    ensures
        entries_ok(bufargs(p, dir, bundled, k)),
        plain_entries(bufargs(p, dir, bundled, k)),
        forall|i: int| 0 <= i < bufargs(p, dir, bundled, k).len() ==> kinds(#[trigger] bufargs(p, dir, bundled, k)[i]) == seq![buf(dir)],
    decreases k
{
    if k > 0 {
        buffer_entries(p, dir, bundled, k - 1);
        assert(wf_type(p_ty(p[k - 1])) && has_size(p_ty(p[k - 1])));
        assert(p_arr(p[k - 1]) ==> !(p_ty(p[k - 1]) is UntypedBuffer));
    }
}

pub proof fn buffer_kinds(c: Seq<CgParam<'_>>, dir: bool)
    requires forall|i: int| 0 <= i < c.len() ==> kinds(#[trigger] c[i]) == seq![buf(dir)],
    ensures all_kinds(c) == all(buf(dir), c.len()),
    decreases c.len()
{
    if c.len() > 0 {
        assert forall|i: int| 0 <= i < c.drop_last().len() implies kinds(#[trigger] c.drop_last()[i]) == seq![buf(dir)] by { assert(c.drop_last()[i] == c[i]); }
        buffer_kinds(c.drop_last(), dir);
    }
    assert(all_kinds(c) =~= all(buf(dir), c.len()));
}

pub proof fn section(p: Seq<Param>, pp: PackedPrimitives, dir: bool)
    requires wf_params(p), arrays_ok(p), sizes_ok(p), is_bundle(pp, p),
    ensures
        plain_entries(section_buffers(p, pp, dir)), no_inner(p) ==> plain_entries(section_objects(p, dir)),
        entries_ok(section_buffers(p, pp, dir)), all_kinds(section_buffers(p, pp, dir)) == all(buf(dir), buffers(p, dir)),
        entries_ok(section_objects(p, dir)), all_kinds(section_objects(p, dir)) == all(obj(dir), objects(p, dir)),
{
    let k = p.len() as int;
    buffer_entries(p, dir, bundled(pp, dir), k);
    object_entries(p, dir, k);
    let b = section_buffers(p, pp, dir);
    assert forall|i: int| 0 <= i < b.len() implies kinds(#[trigger] b[i]) == seq![buf(dir)] && entry_ok(b[i]) && plain_entry(b[i]) by {
        let h = bundle(pp, dir).len() as int;
        if i < h { assert(b[i] == bundle(pp, dir)[i]); } else { assert(b[i] == bufargs(p, dir, bundled(pp, dir), k)[i - h]); }
    }
    buffer_kinds(b, dir);
    buffers_agree(p, pp, dir);
    one_kind(embedded(p, dir, k), obj(dir));
    one_kind(objargs(p, dir, k), obj(dir));
    kinds_sum(embedded(p, dir, k), objargs(p, dir, k));
    entries_sum(embedded(p, dir, k), objargs(p, dir, k));
    objects_agree(p, dir);
    assert(all_kinds(section_objects(p, dir)) =~= all(obj(dir), objects(p, dir)));
}

/// C02, C03: the argument list is what the counts word announces
pub proof fn canonical_kinds(p: Seq<Param>, pp: PackedPrimitives)
    requires wf_params(p), arrays_ok(p), sizes_ok(p), is_bundle(pp, p),
    ensures no_inner(p) ==> plain_entries(canonical(p, pp)), entries_ok(canonical(p, pp)), all_kinds(canonical(p, pp)) == wire_kinds(p),
{
    section(p, pp, true);
    section(p, pp, false);
    kinds_sum(section_buffers(p, pp, true), section_buffers(p, pp, false));
    kinds_sum(section_buffers(p, pp, true) + section_buffers(p, pp, false), section_objects(p, true));
    kinds_sum(section_buffers(p, pp, true) + section_buffers(p, pp, false) + section_objects(p, true), section_objects(p, false));
}

/*@ idlc_codegen/src/functions.rs | trait ParameterVisitor | no_default
sub pub trait ParameterVisitor { => pub trait ParameterVisitor { spec fn inner() -> bool; spec fn handled(&self) -> nat; spec fn knows(&self, k: Seq<Slot>) -> bool;
in visit_input_primitive_buffer spec { requires old(self).handled() + seq![Slot::Bi].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bi].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bi]) }
in visit_input_untyped_buffer spec { requires old(self).handled() + seq![Slot::Bi].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bi].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bi]) }
in visit_input_struct_buffer spec { requires wf_struct(*ty, ty.fields@.len() as int), size_of_struct(*ty) <= usize::MAX, old(self).handled() + seq![Slot::Bi].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bi].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bi]) }
in visit_input_primitive spec { requires old(self).handled() + seq![Slot::Bi].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bi].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bi]) }
in visit_input_bundled spec { requires old(self).handled() + seq![Slot::Bi].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bi].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bi]) }
in visit_input_big_struct spec { requires wf_struct(*ty, ty.fields@.len() as int), size_of_struct(*ty) <= usize::MAX, old(self).handled() + seq![Slot::Bi].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bi].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bi]) }
in visit_input_small_struct spec { requires wf_struct(*ty, ty.fields@.len() as int), size_of_struct(*ty) <= usize::MAX, old(self).handled() + seq![Slot::Bi].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bi].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bi]) }
in visit_input_struct_objects spec { requires Self::inner() || objs(*ty) == 0, wf_struct(*ty, ty.fields@.len() as int), old(self).handled() + all(Slot::Oi, objs(*ty)).len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + all(Slot::Oi, objs(*ty)).len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + all(Slot::Oi, objs(*ty))) }
in visit_input_object spec { requires old(self).handled() + seq![Slot::Oi].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Oi].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Oi]) }
in visit_input_object_array spec { requires old(self).handled() + all(Slot::Oi, cnt@ as nat).len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + all(Slot::Oi, cnt@ as nat).len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + all(Slot::Oi, cnt@ as nat)) }
in visit_output_primitive_buffer spec { requires old(self).handled() + seq![Slot::Bo].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bo].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bo]) }
in visit_output_untyped_buffer spec { requires old(self).handled() + seq![Slot::Bo].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bo].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bo]) }
in visit_output_struct_buffer spec { requires wf_struct(*ty, ty.fields@.len() as int), size_of_struct(*ty) <= usize::MAX, old(self).handled() + seq![Slot::Bo].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bo].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bo]) }
in visit_output_primitive spec { requires old(self).handled() + seq![Slot::Bo].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bo].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bo]) }
in visit_output_bundled spec { requires old(self).handled() + seq![Slot::Bo].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bo].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bo]) }
in visit_output_big_struct spec { requires wf_struct(*ty, ty.fields@.len() as int), size_of_struct(*ty) <= usize::MAX, old(self).handled() + seq![Slot::Bo].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bo].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bo]) }
in visit_output_small_struct spec { requires wf_struct(*ty, ty.fields@.len() as int), size_of_struct(*ty) <= usize::MAX, old(self).handled() + seq![Slot::Bo].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Bo].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Bo]) }
in visit_output_struct_objects spec { requires Self::inner() || objs(*ty) == 0, wf_struct(*ty, ty.fields@.len() as int), old(self).handled() + all(Slot::Oo, objs(*ty)).len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + all(Slot::Oo, objs(*ty)).len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + all(Slot::Oo, objs(*ty))) }
in visit_output_object spec { requires old(self).handled() + seq![Slot::Oo].len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + seq![Slot::Oo].len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + seq![Slot::Oo]) }
in visit_output_object_array spec { requires old(self).handled() + all(Slot::Oo, cnt@ as nat).len() <= ENOUGH, ensures final(self).handled() == old(self).handled() + all(Slot::Oo, cnt@ as nat).len(), forall|k: Seq<Slot>| #[trigger] old(self).knows(k) ==> final(self).knows(k + all(Slot::Oo, cnt@ as nat)) }
@*/

pub proof fn kinds_mono(c: Seq<CgParam<'_>>, k: int)
    requires 0 <= k < c.len(),
    ensures all_kinds(c.take(k + 1)) == all_kinds(c.take(k)) + kinds(c[k]), all_kinds(c.take(k + 1)).len() <= all_kinds(c).len(),
    decreases c.len() - k
{
    assert(c.take(k + 1) =~= c.take(k).push(c[k]));
    kinds_push(c.take(k), c[k]);
    assert(c =~= c.take(k + 1) + c.skip(k + 1));
    kinds_sum(c.take(k + 1), c.skip(k + 1));
}

/*@ idlc_codegen/src/functions.rs | fn Param::visit | ren_Param_CgParam,ref_pat
sub impl Iterator<Item = CgParam<'a>> => Vec<CgParam<'a>>
spec {
    requires V::inner() || plain_entries(params@), entries_ok(params@), old(visitor).handled() + all_kinds(params@).len() <= ENOUGH,
    ensures final(visitor).handled() == old(visitor).handled() + all_kinds(params@).len(),
        forall|k: Seq<Slot>| #[trigger] old(visitor).knows(k) ==> final(visitor).knows(k + all_kinds(params@)),
}
start { let ghost before = *visitor; proof { assert forall|k: Seq<Slot>| #[trigger] before.knows(k) implies k + all_kinds(params@.take(0)) == k by { assert(k + all_kinds(params@.take(0)) =~= k); } } }
loop 0 {
    invariant
        it0.seq() == params@, V::inner() || plain_entries(params@), entries_ok(params@), before.handled() + all_kinds(params@).len() <= ENOUGH,
        visitor.handled() == before.handled() + all_kinds(params@.take(it0.index())).len(),
        forall|k: Seq<Slot>| #[trigger] before.knows(k) ==> visitor.knows(k + all_kinds(params@.take(it0.index()))),
}
body 0 {
    let ghost here = *visitor;
    proof {
        let n = it0.index();
        assert(params@[n] == param);
        assert(entry_ok(params@[n])); assert(V::inner() || plain_entry(params@[n]));
        kinds_mono(params@, n);
        assert forall|k: Seq<Slot>| #[trigger] before.knows(k) implies here.knows(k + all_kinds(params@.take(n))) && k + all_kinds(params@.take(n)) + kinds(param) == k + all_kinds(params@.take(n + 1)) by {
            assert(k + all_kinds(params@.take(n)) + kinds(param) =~= k + all_kinds(params@.take(n + 1)));
        }
        assert(all(Slot::Oi, 1) =~= seq![Slot::Oi]); assert(all(Slot::Oo, 1) =~= seq![Slot::Oo]);
    }
}
after 0 { proof { assert(params@.take(params@.len() as int) =~= params@); } }
@*/

/*@ idlc_codegen/src/functions.rs | fn visit_params_with_bundling | ren_Param_CgParam
sub .into_iter() =>
sub CgParam::visit => proof { canonical_kinds(function.params@, packed_primitives); } CgParam::visit
spec {
    requires V::inner() || no_inner(function.params@), wf_params(function.params@), arrays_ok(function.params@), sizes_ok(function.params@), function.params@.len() <= u32::MAX, old(visitor).handled() + wire_kinds(function.params@).len() <= ENOUGH,
    ensures final(visitor).handled() == old(visitor).handled() + wire_kinds(function.params@).len(),
        forall|k: Seq<Slot>| #[trigger] old(visitor).knows(k) ==> final(visitor).knows(k + wire_kinds(function.params@)),
}
@*/

}
