verus! {

/*@ idlc_mir_passes/src/interface_verifier.rs | fn verify_counts | for_array,for_filter,opt_map_or,usize_from,hoist_const
spec {
    requires
        wf_params(f.params@),
        !fits(f.params@) ==> may_refuse(),
    ensures fits(f.params@),
}
loop 0 {
    invariant
        it0.seq().len() == f.params@.len(),
        forall|j: int| 0 <= j < f.params@.len() ==> *(#[trigger] it0.seq()[j]) == f.params@[j],
        wf_params(f.params@),
        !fits(f.params@) ==> may_refuse(),
        is_input == true,
        has_small == (n_small(f.params@, is_input, it0.index()) > 0),
        buffers == n_buf(f.params@, is_input, it0.index()),
        objects == cap(n_obj(f.params@, is_input, it0.index())),
}
body 0 {
    proof {
        let k = it0.index();
        assert(*it0.seq()[k] == f.params@[k]);
        assert(wf_type(p_ty(f.params@[k])));
        assert(f.params.len() <= usize::MAX);
        n_mono(f.params@, is_input, k + 1, f.params@.len() as int);
    }
}
after 0 {
    proof { assert(f.params.len() <= usize::MAX); n_mono(f.params@, is_input, f.params@.len() as int, f.params@.len() as int); }
}
loop 1 {
    invariant
        it1.seq().len() == f.params@.len(),
        forall|j: int| 0 <= j < f.params@.len() ==> *(#[trigger] it1.seq()[j]) == f.params@[j],
        wf_params(f.params@),
        !fits(f.params@) ==> may_refuse(),
        is_input == false,
        has_small == (n_small(f.params@, is_input, it1.index()) > 0),
        buffers == n_buf(f.params@, is_input, it1.index()),
        objects == cap(n_obj(f.params@, is_input, it1.index())),
}
body 1 {
    proof {
        let k = it1.index();
        assert(*it1.seq()[k] == f.params@[k]);
        assert(wf_type(p_ty(f.params@[k])));
        assert(f.params.len() <= usize::MAX);
        n_mono(f.params@, is_input, k + 1, f.params@.len() as int);
    }
}
after 1 {
    proof { assert(f.params.len() <= usize::MAX); n_mono(f.params@, is_input, f.params@.len() as int, f.params@.len() as int); }
}
@*/

}
