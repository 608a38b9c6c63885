//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
//@include mirtypes
//@include wire_spec
//@contracts structs counts
//@include bundle_spec
//@contracts bundle_new bundle
//@include order_spec
//@include order_new
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- what any visitor is told

pub enum What {
    PrimitiveBuffer(Ident, Primitive), UntypedBuffer(Ident), StructBuffer(Ident, StructInner), Primitive(Ident, Primitive),
    Bundled(PackedPrimitives), BigStruct(Ident, StructInner), SmallStruct(Ident, StructInner), StructObjects(Ident, StructInner),
    Object(Ident, Option<Seq<char>>), ObjectArray(Ident, Option<Seq<char>>, Count),
}
pub ghost struct Event { pub dir: bool, pub what: What }

pub open spec fn text(o: Option<&str>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}
pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}

/// what a visitor hears of one parameter
pub open spec fn heard(p: Param) -> Event {
    let i = p_ident(p);
    Event { dir: p is In, what: match p_ty(p) {
        Type::Interface(o) => if p_arr(p) { What::ObjectArray(i, otext(o), p_cnt(p)->Some_0) } else { What::Object(i, otext(o)) },
        Type::Primitive(t) => if p_arr(p) { What::PrimitiveBuffer(i, t) } else { What::Primitive(i, t) },
        Type::UntypedBuffer => What::UntypedBuffer(i),
        Type::Struct(s) => if p_arr(p) { What::StructBuffer(i, inner_of(s)) } else { match s { Struct::Big(x) => What::BigStruct(i, x), Struct::Small(x) => What::SmallStruct(i, x) } },
    } }
}

pub open spec fn event(c: CgParam<'_>) -> Event {
    match c {
        CgParam::InputBundledPrimitives(b) => Event { dir: true, what: What::Bundled(*b) },
        CgParam::OutputBundledPrimitives(b) => Event { dir: false, what: What::Bundled(*b) },
        CgParam::InputStructObjects(i, s) => Event { dir: true, what: What::StructObjects(*i, *s) },
        CgParam::OutputStructObjects(i, s) => Event { dir: false, what: What::StructObjects(*i, *s) },
        CgParam::Params(p) => heard(*p),
    }
}

pub open spec fn events(c: Seq<CgParam<'_>>) -> Seq<Event> { Seq::new(c.len(), |i: int| event(c[i])) }

pub open spec fn param_ok(p: Param) -> bool {
    p_arr(p) ==> !(p_ty(p) is UntypedBuffer) && (p_ty(p) is Interface ==> p_cnt(p) is Some)
}

pub open spec fn cg_ok(c: Seq<CgParam<'_>>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> match #[trigger] c[i] { CgParam::Params(p) => param_ok(*p), _ => true }
}

/*@ idlc_codegen/src/functions.rs | trait ParameterVisitor | no_default
sub pub trait ParameterVisitor { => pub trait ParameterVisitor { spec fn trace(&self) -> Seq<Event>;
in visit_input_primitive_buffer spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::PrimitiveBuffer(*ident, ty) }) }
in visit_input_untyped_buffer spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::UntypedBuffer(*ident) }) }
in visit_input_struct_buffer spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::StructBuffer(*ident, *ty) }) }
in visit_input_primitive spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::Primitive(*ident, ty) }) }
in visit_input_bundled spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::Bundled(*packed_primitives) }) }
in visit_input_big_struct spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::BigStruct(*ident, *ty) }) }
in visit_input_small_struct spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::SmallStruct(*ident, *ty) }) }
in visit_input_struct_objects spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::StructObjects(*ident, *ty) }) }
in visit_input_object spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::Object(*ident, text(ty)) }) }
in visit_input_object_array spec { ensures final(self).trace() == old(self).trace().push(Event { dir: true, what: What::ObjectArray(*ident, text(ty), cnt) }) }
in visit_output_primitive_buffer spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::PrimitiveBuffer(*ident, ty) }) }
in visit_output_untyped_buffer spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::UntypedBuffer(*ident) }) }
in visit_output_struct_buffer spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::StructBuffer(*ident, *ty) }) }
in visit_output_primitive spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::Primitive(*ident, ty) }) }
in visit_output_bundled spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::Bundled(*packed_primitives) }) }
in visit_output_big_struct spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::BigStruct(*ident, *ty) }) }
in visit_output_small_struct spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::SmallStruct(*ident, *ty) }) }
in visit_output_struct_objects spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::StructObjects(*ident, *ty) }) }
in visit_output_object spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::Object(*ident, text(ty)) }) }
in visit_output_object_array spec { ensures final(self).trace() == old(self).trace().push(Event { dir: false, what: What::ObjectArray(*ident, text(ty), cnt) }) }
@*/

/*@ idlc_codegen/src/functions.rs | fn Param::visit | ren_Param_CgParam,ref_pat
sub impl Iterator<Item = CgParam<'a>> => Vec<CgParam<'a>>
spec {
    requires cg_ok(params@),
    ensures final(visitor).trace() =~= old(visitor).trace() + events(params@),
}
start { let ghost before = visitor.trace(); }
loop 0 {
    invariant
        it0.seq() == params@, cg_ok(params@),
        visitor.trace() =~= before + events(params@.take(it0.index())),
}
body 0 { proof { assert(params@[it0.index()] == param); assert(cg_ok(params@)); assert(params@.take(it0.index() + 1) =~= params@.take(it0.index()).push(param)); } }
after 0 { proof { assert(params@.take(params@.len() as int) =~= params@); } }
@*/

pub proof fn cg_parts(p: Seq<Param>, dir: bool, bundled: bool, k: int)
    requires arrays_ok(p), 0 <= k <= p.len(),
    ensures cg_ok(embedded(p, dir, k)), cg_ok(objargs(p, dir, k)), cg_ok(bufargs(p, dir, bundled, k)),
    decreases k
{
    if k > 0 {
        cg_parts(p, dir, bundled, k - 1);
        assert(p_arr(p[k - 1]) ==> !(p_ty(p[k - 1]) is UntypedBuffer));
    }
}

pub proof fn cg_canonical(p: Seq<Param>, pp: PackedPrimitives)
    requires arrays_ok(p),
    ensures cg_ok(canonical(p, pp)),
{
    cg_parts(p, true, bundled(pp, true), p.len() as int);
    cg_parts(p, false, bundled(pp, false), p.len() as int);
}

/*@ idlc_codegen/src/functions.rs | fn visit_params | ren_Param_CgParam
sub function.params.iter().map(CgParam::Params) => as_params(&function.params)
spec {
    requires arrays_ok(function.params@),
    ensures final(visitor).trace() =~= old(visitor).trace() + Seq::new(function.params@.len(), |i: int| heard(function.params@[i])),
}
@*/

/*@ idlc_codegen/src/functions.rs | fn visit_params_with_bundling | ren_Param_CgParam
sub .into_iter() =>
sub CgParam::visit => proof { cg_canonical(function.params@, packed_primitives); } CgParam::visit
spec {
    requires wf_params(function.params@), arrays_ok(function.params@), function.params@.len() <= u32::MAX,
    ensures exists|pp: PackedPrimitives| final(visitor).trace() =~= old(visitor).trace() + #[trigger] events(canonical(function.params@, pp))
        && is_bundle(pp, function.params@),
}
@*/

}
fn main() {}
