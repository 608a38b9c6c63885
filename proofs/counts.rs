//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
//@include mirtypes
//@include wire_spec
//@include structs
//@include bundle_spec
//@include verify_counts
//@include counter_spec
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- the counts of the generated call


impl Counter {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.input_buffers == 0, r.input_objects == 0, r.output_objects == 0, r.output_buffers == 0,
            r.total_bundled_input == 0, r.total_bundled_output == 0, !r.has_bundled_input, !r.has_bundled_output,
    { unimplemented!() }
}

/// what the counter holds after the first k parameters, before the bundles are added
pub closed spec fn counted(c: Counter, p: Seq<Param>, k: int) -> bool {
    &&& c.input_buffers == n_buf(p, true, k)
    &&& c.output_buffers == n_buf(p, false, k)
    &&& c.input_objects == n_obj(p, true, k)
    &&& c.output_objects == n_obj(p, false, k)
    &&& c.total_bundled_input == n_small(p, true, k)
    &&& c.total_bundled_output == n_small(p, false, k)
    &&& c.has_bundled_input == (n_small(p, true, k) > 0)
    &&& c.has_bundled_output == (n_small(p, false, k) > 0)
}

/*@ idlc_codegen/src/counts.rs | impl ParameterVisitor Counter | inherit=idlc_codegen/src/functions.rs#ParameterVisitor
in visit_input_primitive_buffer spec {
    requires old(self).input_buffers < 255,
    ensures final(self).input_buffers == old(self).input_buffers + 1, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_input_struct_buffer spec {
    requires old(self).input_buffers < 255,
    ensures final(self).input_buffers == old(self).input_buffers + 1, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_input_untyped_buffer spec {
    requires old(self).input_buffers < 255,
    ensures final(self).input_buffers == old(self).input_buffers + 1, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_input_primitive spec {
    requires old(self).total_bundled_input < u32::MAX,
    ensures final(self).has_bundled_input, final(self).total_bundled_input == old(self).total_bundled_input + 1, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_input_small_struct spec {
    requires old(self).total_bundled_input < u32::MAX,
    ensures final(self).has_bundled_input, final(self).total_bundled_input == old(self).total_bundled_input + 1, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_input_big_struct spec {
    requires old(self).input_buffers < 255, old(self).input_objects + objs(*s) <= 255,
    ensures final(self).input_buffers == old(self).input_buffers + 1, final(self).input_objects == old(self).input_objects + objs(*s), final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_input_object spec {
    requires old(self).input_objects < 255,
    ensures final(self).input_objects == old(self).input_objects + 1, final(self).input_buffers == old(self).input_buffers, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_input_object_array spec {
    requires old(self).input_objects + cnt@ <= 255,
    ensures final(self).input_objects == old(self).input_objects + cnt@, final(self).input_buffers == old(self).input_buffers, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_input_bundled spec { ensures *final(self) == *old(self) }
in visit_input_struct_objects spec { ensures *final(self) == *old(self) }
in visit_output_primitive_buffer spec {
    requires old(self).output_buffers < 255,
    ensures final(self).output_buffers == old(self).output_buffers + 1, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_output_struct_buffer spec {
    requires old(self).output_buffers < 255,
    ensures final(self).output_buffers == old(self).output_buffers + 1, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_output_untyped_buffer spec {
    requires old(self).output_buffers < 255,
    ensures final(self).output_buffers == old(self).output_buffers + 1, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_output_primitive spec {
    requires old(self).total_bundled_output < u32::MAX,
    ensures final(self).has_bundled_output, final(self).total_bundled_output == old(self).total_bundled_output + 1, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).has_bundled_input == old(self).has_bundled_input
}
in visit_output_small_struct spec {
    requires old(self).total_bundled_output < u32::MAX,
    ensures final(self).has_bundled_output, final(self).total_bundled_output == old(self).total_bundled_output + 1, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_objects == old(self).output_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).has_bundled_input == old(self).has_bundled_input
}
in visit_output_big_struct spec {
    requires old(self).output_buffers < 255, old(self).output_objects + objs(*s) <= 255,
    ensures final(self).output_buffers == old(self).output_buffers + 1, final(self).output_objects == old(self).output_objects + objs(*s), final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_output_object spec {
    requires old(self).output_objects < 255,
    ensures final(self).output_objects == old(self).output_objects + 1, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_output_object_array spec {
    requires old(self).output_objects + cnt@ <= 255,
    ensures final(self).output_objects == old(self).output_objects + cnt@, final(self).input_buffers == old(self).input_buffers, final(self).input_objects == old(self).input_objects, final(self).output_buffers == old(self).output_buffers, final(self).total_bundled_input == old(self).total_bundled_input, final(self).total_bundled_output == old(self).total_bundled_output, final(self).has_bundled_input == old(self).has_bundled_input, final(self).has_bundled_output == old(self).has_bundled_output
}
in visit_output_bundled spec { ensures *final(self) == *old(self) }
in visit_output_struct_objects spec { ensures *final(self) == *old(self) }
@*/

/*@ idlc_codegen/src/functions.rs | fn Param::visit | ren_Param_CgParam,ref_pat
name Param::visit::<Counter>
sub fn visit<V: ParameterVisitor> => fn visit_counter
sub impl Iterator<Item = CgParam<'a>> => Vec<CgParam<'a>>, Ghost(ps): Ghost<Seq<Param>>
sub visitor: &mut V => visitor: &mut Counter
spec {
    requires plain(params@, ps), wf_params(ps), arrays_ok(ps), ps.len() <= u32::MAX, fits(ps), counted(*old(visitor), ps, 0),
    ensures counted(*final(visitor), ps, ps.len() as int),
}
loop 0 {
    invariant
        it0.seq() == params@, plain(params@, ps), wf_params(ps), arrays_ok(ps), ps.len() <= u32::MAX, fits(ps),
        counted(*visitor, ps, it0.index()),
}
body 0 {
    proof {
        let k = it0.index();
        assert(params@[k] == CgParam::Params(&ps[k]));
        assert(wf_type(p_ty(ps[k])));
        assert(p_arr(ps[k]) ==> !(p_ty(ps[k]) is UntypedBuffer));
        n_mono(ps, true, k, ps.len() as int);
        n_mono(ps, false, k, ps.len() as int);
        n_mono(ps, true, k + 1, ps.len() as int);
        n_mono(ps, false, k + 1, ps.len() as int);
    }
}
@*/

/*@ idlc_codegen/src/functions.rs | fn visit_params | ren_Param_CgParam
name visit_params::<Counter>
sub fn visit_params<V: ParameterVisitor> => fn visit_params_counter
sub visitor: &mut V => visitor: &mut Counter
sub CgParam::visit => CgParam::visit_counter
sub function.params.iter().map(CgParam::Params) => as_params(&function.params), Ghost(function.params@)
spec {
    requires wf_params(function.params@), arrays_ok(function.params@), function.params@.len() <= u32::MAX, fits(function.params@), counted(*old(visitor), function.params@, 0),
    ensures counted(*final(visitor), function.params@, function.params@.len() as int),
}
@*/

}
//@include counter_new
fn main() {}
