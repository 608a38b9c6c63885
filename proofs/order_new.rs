verus! {

/*@ idlc_codegen/src/functions.rs | fn Param::new | ren_Param_CgParam
ret r
spec {
    requires wf_params(params@),
    ensures r@ == canonical(params@, *packed_primitives),
}
before 0 {
    assert(input_buffers@ == bundle(*packed_primitives, true));
    assert(output_buffers@ == bundle(*packed_primitives, false));
}
loop 0 {
    invariant
        it0.seq().len() == params@.len(),
        forall|j: int| 0 <= j < params@.len() ==> *(#[trigger] it0.seq()[j]) == params@[j],
        wf_params(params@),
        input_buffers@ == bundle(*packed_primitives, true), output_buffers@ == bundle(*packed_primitives, false),
        input_objects@ == embedded(params@, true, it0.index()),
        output_objects@ == embedded(params@, false, it0.index()),
}
body 0 {
    proof {
        let k = it0.index();
        assert(*it0.seq()[k] == params@[k]);
        assert(wf_type(p_ty(params@[k])));
    }
}
loop 1 {
    invariant
        it1.seq().len() == params@.len(),
        forall|j: int| 0 <= j < params@.len() ==> *(#[trigger] it1.seq()[j]) == params@[j],
        wf_params(params@),
        input_buffers@ == bundle(*packed_primitives, true) + bufargs(params@, true, bundled(*packed_primitives, true), it1.index()),
        output_buffers@ == bundle(*packed_primitives, false) + bufargs(params@, false, bundled(*packed_primitives, false), it1.index()),
        input_objects@ == embedded(params@, true, params@.len() as int) + objargs(params@, true, it1.index()),
        output_objects@ == embedded(params@, false, params@.len() as int) + objargs(params@, false, it1.index()),
}
body 1 {
    proof {
        let k = it1.index();
        assert(*it1.seq()[k] == params@[k]);
        assert(wf_type(p_ty(params@[k])));
    }
}
@*/

}
