// The visitors of the C backend: what the stubs put in the slots of the argument array, what the skeletons take out.
pub mod stub {
use super::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_slots, all_said};

/// what a slot is initialised with: an object, or a buffer
pub open spec fn of_kind(t: Seq<char>, s: Slot) -> bool {
    match s { Slot::Bi => holds(t, ".b = "@) || holds(t, ".bi = "@), Slot::Bo => holds(t, ".b = "@), _ => holds(t, ".o = "@) }
}

/// n more slots, all of a kind
pub open spec fn gained(was: Implementation, now: Implementation, s: Slot, n: int) -> bool {
    &&& now.idx == was.idx + n
    &&& grown(was.args@, now.args@, n)
    &&& forall|i: int| was.args@.len() <= i < now.args@.len() ==> of_kind((#[trigger] now.args@[i])@, s)
}
/*@ idlc_codegen_c/src/interface/functions/implementation.rs | struct Implementation | @*/

/*@ idlc_codegen_c/src/interface/functions/implementation.rs | fn Implementation::idx |
ret r
spec {
    requires old(self).idx < usize::MAX,
    ensures r == old(self).idx, *final(self) == (Implementation { idx: final(self).idx, ..*old(self) }), final(self).idx == old(self).idx + 1,
}
@*/

/*@ idlc_codegen_c/src/interface/functions/implementation.rs | impl ParameterVisitor Implementation | inherit=idlc_codegen/src/functions.rs#ParameterVisitor,keep_trait,mods=serialization,fmt,marks=a[;];.o~=~;.b~=~;.bi~=~,consts=idlc_codegen_c/src/interface/variable_names.rs,meth_to_string,meth_contains,meth_push_str,gives_up,range_into
sub impl ParameterVisitor for Implementation { => impl ParameterVisitor for Implementation { open spec fn inner() -> bool { true } open spec fn handled(&self) -> nat { self.idx as nat } open spec fn knows(&self, k: Seq<Slot>) -> bool { self.idx == k.len() && self.args@.len() == k.len() && forall|i: int| 0 <= i < k.len() ==> of_kind((#[trigger] self.args@[i])@, k[i]) }
in visit_input_object_array start { let ghost was = *self; }
in visit_input_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, gained(was, *self, Slot::Oi, it0.index()),
}
in visit_input_struct_objects start { let ghost was = *self; }
in visit_input_struct_objects loop 0 {
    invariant
        wf_struct(*ty, ty.fields@.len() as int), it0.seq().len() == objs(*ty), was.idx + objs(*ty) <= ENOUGH,
        gained(was, *self, Slot::Oi, it0.index()),
}
in visit_input_object spec { ensures gained(*old(self), *final(self), Slot::Oi, 1), }
in visit_output_object spec { ensures gained(*old(self), *final(self), Slot::Oo, 1), told(old(self).post_call_objects@, final(self).post_call_objects@, old(self).idx as int, 1), }
in visit_output_primitive_buffer spec { ensures told(old(self).post_call@, final(self).post_call@, old(self).idx as int, 1), }
in visit_output_struct_buffer spec { ensures told(old(self).post_call@, final(self).post_call@, old(self).idx as int, 1), }
in visit_output_object_array spec { ensures told(old(self).post_call_objects@, final(self).post_call_objects@, old(self).idx as int, cnt@ as int), }
in visit_output_object_array start { let ghost was = *self; }
in visit_output_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, gained(was, *self, Slot::Oo, it0.index()), told(was.post_call_objects@, self.post_call_objects@, was.idx as int, it0.index()),
}
in visit_output_struct_objects spec { ensures told(old(self).post_call_objects@, final(self).post_call_objects@, old(self).idx as int, objs(*ty) as int), }
in visit_output_struct_objects start { let ghost was = *self; }
in visit_output_struct_objects loop 0 {
    invariant
        wf_struct(*ty, ty.fields@.len() as int), it0.seq().len() == objs(*ty), was.idx + objs(*ty) <= ENOUGH,
        gained(was, *self, Slot::Oo, it0.index()), told(was.post_call_objects@, self.post_call_objects@, was.idx as int, it0.index()),
}
@*/

/*@ idlc_codegen_c/src/interface/functions/implementation.rs | fn Implementation::new | vec
ret r
sub visit_params_with_bundling(function, &mut me); => proof { assert(me.knows(Seq::empty())); } visit_params_with_bundling(function, &mut me);
spec {
    requires wf_params(function.params@), arrays_ok(function.params@), sizes_ok(function.params@), function.params@.len() <= u32::MAX, fits(function.params@),
    ensures
        r.args@.len() == wire_kinds(function.params@).len(),
        forall|i: int| 0 <= i < r.args@.len() ==> of_kind((#[trigger] r.args@[i])@, wire_kinds(function.params@)[i]),
}
tail { proof { assert(Seq::<Slot>::empty() + wire_kinds(function.params@) =~= wire_kinds(function.params@)); } }
@*/

/*@ idlc_codegen_c/src/interface/functions/implementation.rs | fn Implementation::args | meth_concat
ret r
spec { ensures r@ == flat(self.args@), }
@*/
/*@ idlc_codegen_c/src/interface/functions/implementation.rs | fn Implementation::initializations | meth_concat @*/
/*@ idlc_codegen_c/src/interface/functions/implementation.rs | fn Implementation::pre_call_assignments | meth_concat @*/
/*@ idlc_codegen_c/src/interface/functions/implementation.rs | fn Implementation::post_call_assignments | meth_concat,fmt,add_assign @*/

/// the texts fill the slots of the argument array, one each, in the order the counts word announces
pub open spec fn fills(a: Seq<String>, k: Seq<Slot>) -> bool { a.len() == k.len() && forall|i: int| 0 <= i < a.len() ==> of_kind((#[trigger] a[i])@, k[i]) }
pub open spec fn array_of(a: Seq<String>) -> Seq<char> { "ObjectArg a[] = {"@ + flat(a) + "\n    };"@ }

pub proof fn array_not_empty()
    ensures "ObjectArg a[] = {"@.len() > 0,
{
    reveal_strlit("ObjectArg a[] = {");
}


}
}

// ---------------------------------------------------------------- skeletons
pub mod skeleton {
use super::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_slots, all_said};

/// the skeleton refuses an i-th argument of any size but n
pub open spec fn demands(t: Seq<char>, i: int, n: int) -> bool { holds(t, "a["@ + numeral(i) + "]"@ + ".b.size != "@ + numeral(n)) }
pub open spec fn demanded(was: Seq<String>, now: Seq<String>, i: int, n: int) -> bool { grown(was, now, 1) && demands(now.last()@, i, n) }

/*@ idlc_codegen_c/src/interface/functions/invoke.rs | struct Invoke | @*/

/*@ idlc_codegen_c/src/interface/functions/invoke.rs | fn Invoke::idx |
ret r
spec {
    requires old(self).idx < usize::MAX,
    ensures r == old(self).idx, *final(self) == (Invoke { idx: final(self).idx, ..*old(self) }), final(self).idx == old(self).idx + 1,
}
@*/

/*@ idlc_codegen_c/src/interface/functions/invoke.rs | impl ParameterVisitor Invoke | inherit=idlc_codegen/src/functions.rs#ParameterVisitor,keep_trait,mods=serialization,fmt,marks=a[;];.b.size~!=~,consts=idlc_codegen_c/src/interface/variable_names.rs,meth_to_string,meth_contains,meth_push_str,gives_up,range_into
sub impl ParameterVisitor for Invoke { => impl ParameterVisitor for Invoke { open spec fn inner() -> bool { true } open spec fn handled(&self) -> nat { self.idx as nat } open spec fn knows(&self, k: Seq<Slot>) -> bool { self.idx == k.len() }
in visit_input_primitive spec { ensures
    told(old(self).pre@, final(self).pre@, old(self).idx as int, 1),
    demanded(old(self).args@, final(self).args@, old(self).idx as int, psz(ty) as int),
}
in visit_output_primitive spec { ensures
    told(old(self).pre@, final(self).pre@, old(self).idx as int, 1),
    demanded(old(self).args@, final(self).args@, old(self).idx as int, psz(ty) as int),
}
in visit_input_primitive_buffer spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), }
in visit_input_untyped_buffer spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), }
in visit_input_struct_buffer spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), }
in visit_input_bundled spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), told(old(self).args@, final(self).args@, old(self).idx as int, 1), }
in visit_output_bundled spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), told(old(self).args@, final(self).args@, old(self).idx as int, 1), }
in visit_input_big_struct spec { ensures
    told(old(self).pre@, final(self).pre@, old(self).idx as int, 1),
    demanded(old(self).args@, final(self).args@, old(self).idx as int, size_of_struct(*ty) as int),
}
in visit_output_big_struct spec { ensures
    told(old(self).pre@, final(self).pre@, old(self).idx as int, 1),
    demanded(old(self).args@, final(self).args@, old(self).idx as int, size_of_struct(*ty) as int),
}
in visit_input_object spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), }
in visit_input_object_array spec { ensures told_all(old(self).pre@, final(self).pre@, old(self).idx as int, cnt@ as int), }
in visit_input_struct_objects spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, objs(*ty) as int), }
in visit_output_primitive_buffer spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), told(old(self).post@, final(self).post@, old(self).idx as int, 1), }
in visit_output_untyped_buffer spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), told(old(self).post@, final(self).post@, old(self).idx as int, 1), }
in visit_output_struct_buffer spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), told(old(self).post@, final(self).post@, old(self).idx as int, 1), }
in visit_output_object spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, 1), final(self).idx == old(self).idx + 1, }
in visit_output_object_array spec { ensures told_all(old(self).post@, final(self).post@, old(self).idx as int, cnt@ as int), }
in visit_output_struct_objects spec { ensures told(old(self).pre@, final(self).pre@, old(self).idx as int, objs(*ty) as int), }
in visit_input_object_array start { let ghost was = *self; }
in visit_input_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, self.idx == was.idx + it0.index(), self.pre@ == was.pre@, all_used(objs@, was.idx as int, it0.index()),
}
in visit_output_object_array start { let ghost was = *self; }
in visit_output_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, self.idx == was.idx + it0.index(), self.post@ == was.post@, all_used(obj_assign@, was.idx as int, it0.index()),
}
in visit_input_struct_objects start { let ghost was = *self; }
in visit_input_struct_objects loop 0 {
    invariant
        it0.seq().len() == objs(*ty), was.idx + objs(*ty) <= ENOUGH, self.idx == was.idx + it0.index(),
        told(was.pre@, self.pre@, was.idx as int, it0.index()),
}
in visit_output_struct_objects start { let ghost was = *self; }
in visit_output_struct_objects loop 0 {
    invariant
        wf_struct(*ty, ty.fields@.len() as int), it0.seq().len() == objs(*ty), was.idx + objs(*ty) <= ENOUGH, self.idx == was.idx + it0.index(),
        told(was.pre@, self.pre@, was.idx as int, it0.index()),
}
@*/

/*@ idlc_codegen_c/src/interface/functions/invoke.rs | fn Invoke::new | vec
sub visit_params_with_bundling(function, &mut me); => proof { assert(me.knows(Seq::empty())); } visit_params_with_bundling(function, &mut me);
spec { requires callable(*function), }
@*/
/*@ idlc_codegen_c/src/interface/functions/invoke.rs | fn Invoke::args | meth_push_str,meth_as_ref,add_assign @*/
/*@ idlc_codegen_c/src/interface/functions/invoke.rs | fn Invoke::pre | meth_concat @*/
/*@ idlc_codegen_c/src/interface/functions/invoke.rs | fn Invoke::post | meth_concat @*/


}
}
