// What the rest uses of PackedPrimitives.
verus! {

/*@ idlc_codegen/src/serialization.rs | fn PackedPrimitives::new | ren_Type_PType,sort_by
ret r
sub visit_params( => visit_params_packed(
sort 0 { let ghost a0 = me.inputs@; proof { listed_ok(a0, function.params@, true); } }
sorted 0 { proof { sorted_bundle(a0, me.inputs@, function.params@, true); } }
sort 1 { let ghost a1 = me.outputs@; proof { listed_ok(a1, function.params@, false); } }
sorted 1 { proof { sorted_bundle(a1, me.outputs@, function.params@, false); } }
cmp 0 { Pair | requires pt_ok(a.ty), pt_ok(b.ty), ensures verif_o == ord(ptsize(b.ty), ptsize(a.ty)) }
cmp 1 { Pair | requires pt_ok(a.ty), pt_ok(b.ty), ensures verif_o == ord(ptsize(b.ty), ptsize(a.ty)) }
spec {
    requires wf_params(function.params@), arrays_ok(function.params@), function.params@.len() <= u32::MAX,
    ensures
        bundle_order(r.inputs@, smalls(function.params@, true, function.params@.len() as int)),
        bundle_order(r.outputs@, smalls(function.params@, false, function.params@.len() as int)),
        r.input_size == small_bytes(function.params@, true, function.params@.len() as int),
        r.output_size == small_bytes(function.params@, false, function.params@.len() as int),
}
@*/

/*@ idlc_codegen/src/serialization.rs | fn PackedPrimitives::n_inputs |
ret r
spec { ensures r == self.inputs@.len() }
@*/
/*@ idlc_codegen/src/serialization.rs | fn PackedPrimitives::n_outputs |
ret r
spec { ensures r == self.outputs@.len() }
@*/
/*@ idlc_codegen/src/serialization.rs | fn PackedPrimitives::packed_input_size |
ret r
spec { ensures r == self.input_size }
@*/
/*@ idlc_codegen/src/serialization.rs | fn PackedPrimitives::packed_output_size |
ret r
spec { ensures r == self.output_size }
@*/


}
