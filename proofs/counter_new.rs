// What the rest uses of the counts of a call.
verus! {

/*@ idlc_codegen/src/counts.rs | fn Counter::new | then_some
ret r
sub visit_params( => visit_params_counter(
spec {
    requires wf_params(function.params@), arrays_ok(function.params@), function.params@.len() <= u32::MAX, fits(function.params@),
    ensures
        r.input_buffers == buffers(function.params@, true),
        r.output_buffers == buffers(function.params@, false),
        r.input_objects == objects(function.params@, true),
        r.output_objects == objects(function.params@, false),
        r.total_bundled_input == n_small(function.params@, true, function.params@.len() as int),
        r.total_bundled_output == n_small(function.params@, false, function.params@.len() as int),
}
@*/

/*@ idlc_codegen/src/counts.rs | fn Counter::total |
ret r
spec {
    requires self.input_buffers <= 15, self.input_objects <= 15, self.output_buffers <= 15, self.output_objects <= 15,
    ensures r == self.input_buffers + self.input_objects + self.output_buffers + self.output_objects,
}
@*/

}
