//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
//@include mirtypes
//@include wire_spec
//@contracts structs counts
//@include bundle_spec
//@contracts bundle_new bundle
//@include order_spec
//@contracts order_new order
//@include slots_spec
//@include slots_text
//@contracts object_paths objects
//@include counter_spec
//@contracts counter_new counts
//@include emission_spec
verus! {

global size_of usize == 8;

pub use serialization::TransportBuffer;
pub mod serialization {
    use super::*;
    pub struct TransportBuffer { pub definition: String, pub size: usize, pub initialization: String }
    #[verifier::external_body]
    pub struct PackedPrimitives<'a> { x: std::marker::PhantomData<&'a u8> }
    impl<'a> PackedPrimitives<'a> {
        #[verifier::external_body]
        pub fn new(p: &'a super::PackedPrimitives) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_definition(&self, is_invoke: bool) -> Option<TransportBuffer> { unimplemented!() }
        #[verifier::external_body]
        pub fn bo_definition(&self, is_invoke: bool) -> Option<TransportBuffer> { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_assignments(&self) -> String { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_embedded(&self) -> String { unimplemented!() }
        #[verifier::external_body]
        pub fn post_bo_assignments(&self) -> String { unimplemented!() }
    }
}
pub mod signature {
    use super::*;
    #[verifier::external_body]
    pub struct Signature { x: u8 }
    #[verifier::external_body]
    pub struct Names { x: u8 }
    impl Signature {
        #[verifier::external_body]
        pub fn new(f: &Function, counts: &Counter, is_no_typed_objects: bool) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn params(&self) -> Names { unimplemented!() }
        #[verifier::external_body]
        pub fn return_idents(&self) -> Names { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn iter_to_string(n: Names) -> String { unimplemented!() }
}
#[verifier::external_body]
pub fn const_value(c: &Const) -> String { unimplemented!() }
pub mod functions { pub mod signature { pub use super::super::signature::*; } pub mod implementation { pub use super::super::stub_text::emit; } pub mod invoke { pub use super::super::skeleton_text::emit; } }
#[verifier::external_body]
pub fn change_primitive(p: Primitive) -> &'static str { unimplemented!() }

}
//@include slots_c_visitors
pub mod stub_text {
use super::*;
use super::stub::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_slots, all_said};

/*@ idlc_codegen_c/src/interface/functions/implementation.rs | fn emit | fmt,mods=signature,consts=idlc_codegen_c/src/interface/variable_names.rs,marks=Object_invoke(self^~;^~0^~0),meth_to_string,meth_is_empty
ret r
sub fn emit( => fn emit<A: AsText, B: AsText>(
sub current_iface_ident: &str => current_iface_ident: &A
sub iface_ident: &str => iface_ident: &B
sub documentation: &str => documentation: &Documentation
spec {
    requires
        callable(*function),
        counts.input_buffers == buffers(function.params@, true), counts.output_buffers == buffers(function.params@, false),
        counts.input_objects == objects(function.params@, true), counts.output_objects == objects(function.params@, false),
    ensures
        holds(r@, call_c(iface_ident.as_text(), *function)),
        slots_of(*function) > 0 ==> exists|a: Seq<String>| fills(a, wire_kinds(function.params@)) && #[trigger] holds(r@, array_of(a)),
}
start { proof { array_not_empty(); } }
tail { proof { assert(fills(implementation.args@, wire_kinds(function.params@))); assert(object_args@ == array_of(implementation.args@)); } }
@*/

}
}
pub mod skeleton_text {
use super::*;
use super::skeleton::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_slots, all_said};

/*@ idlc_codegen_c/src/interface/functions/invoke.rs | fn emit | fmt,mods=signature,consts=idlc_codegen_c/src/interface/variable_names.rs,marks=case~;:~{;if~(k~!=~ObjectCounts_pack,meth_to_string,meth_push_str
ret r
sub fn emit( => fn emit<A: AsText>(
sub iface_ident: &str => iface_ident: &A
spec {
    requires
        callable(*function),
        counts.input_buffers == buffers(function.params@, true), counts.output_buffers == buffers(function.params@, false),
        counts.input_objects == objects(function.params@, true), counts.output_objects == objects(function.params@, false),
    ensures
        holds(r@, case_c(iface_ident.as_text(), *function)),
        holds(r@, pack_c(*function)),
}
@*/

}
}
// ---------------------------------------------------------------- the header of an interface
pub mod header {
use super::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_said};

/*@ idlc_codegen_c/src/interface/mod.rs | fn emit_interface_impl | fmt,for_each,for_own=interface,meth_push_str,meth_to_string
ret r
spec {
    requires all_callable(lineage(*interface)),
    ensures
        says_all(r@, What::ErrorC, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says(r@, What::OpC, interface.ident.ident@, interface.ident.ident@, interface.nodes@, interface.nodes@.len() as int),
        says_all(r@, What::CallC, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
}
loop 0 {
    invariant
        all_callable(lineage(*interface)), ident@ == interface.ident.ident@,
        verif_iter.rest() == lineage(*interface).skip(lineage(*interface).len() - verif_iter.rest().len()), 0 <= verif_iter.rest().len() < lineage(*interface).len(),
        says_all(errors@, What::ErrorC, ident@, lineage(*interface), 1, lineage(*interface).len() - verif_iter.rest().len()),
        says_all(implementations@, What::CallC, ident@, lineage(*interface), 1, lineage(*interface).len() - verif_iter.rest().len()),
    ensures
        says_all(errors@, What::ErrorC, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says_all(implementations@, What::CallC, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
    decreases verif_iter.rest().len()
}
body 0 { let ghost c = lineage(*interface); let ghost n = c.len() - verif_iter.rest().len(); proof { if n < c.len() { assert(c.skip(n)[0] == c[n]); assert(c.skip(n).skip(1) =~= c.skip(n + 1)); } } }
loop 1 {
    invariant
        all_callable(c), 0 <= n < c.len(), *iface == c[n], ident@ == interface.ident.ident@,
        it1.seq().len() == iface.nodes@.len(), forall|k: int| 0 <= k < iface.nodes@.len() ==> *(#[trigger] it1.seq()[k]) == iface.nodes@[k],
        says_all(errors@, What::ErrorC, ident@, c, 1, n), says_all(implementations@, What::CallC, ident@, c, 1, n),
        says(errors@, What::ErrorC, ident@, iface.ident.ident@, iface.nodes@, it1.index()),
        says(implementations@, What::CallC, ident@, iface.ident.ident@, iface.nodes@, it1.index()),
}
body 1 { let ghost k = it1.index(); proof { assert(*it1.seq()[k] == iface.nodes@[k]); assert(c[n].nodes@[k] == iface.nodes@[k]); } }
end 1 {
    proof {
        says_next(errors@, What::ErrorC, ident@, iface.ident.ident@, iface.nodes@, k);
        says_next(implementations@, What::CallC, ident@, iface.ident.ident@, iface.nodes@, k);
    }
}
after 1 {
    proof { all_next(errors@, What::ErrorC, ident@, c, 1, n); all_next(implementations@, What::CallC, ident@, c, 1, n); }
}
loop 2 {
    invariant
        all_callable(lineage(*interface)), ident@ == interface.ident.ident@, lineage(*interface)[0] == *interface,
        it2.seq().len() == interface.nodes@.len(), forall|k: int| 0 <= k < interface.nodes@.len() ==> *(#[trigger] it2.seq()[k]) == interface.nodes@[k],
        says_all(errors@, What::ErrorC, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says_all(implementations@, What::CallC, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says(errors@, What::ErrorC, ident@, ident@, interface.nodes@, it2.index()),
        says(op_codes@, What::OpC, ident@, ident@, interface.nodes@, it2.index()),
        says(implementations@, What::CallC, ident@, ident@, interface.nodes@, it2.index()),
}
body 2 { let ghost k = it2.index(); proof { assert(*it2.seq()[k] == interface.nodes@[k]); assert(lineage(*interface)[0].nodes@[k] == interface.nodes@[k]); } }
end 2 {
    proof {
        says_next(errors@, What::ErrorC, ident@, ident@, interface.nodes@, k);
        says_next(op_codes@, What::OpC, ident@, ident@, interface.nodes@, k);
        says_next(implementations@, What::CallC, ident@, ident@, interface.nodes@, k);
    }
}
after 2 {
    proof {
        all_own(errors@, What::ErrorC, ident@, lineage(*interface), lineage(*interface).len() as int);
        all_own(implementations@, What::CallC, ident@, lineage(*interface), lineage(*interface).len() as int);
    }
}
@*/

/*@ idlc_codegen_c/src/interface/mod.rs | fn emit_interface_invoke | then_some,meth_unwrap_or_default,fmt,for_each,for_own=interface,meth_push_str,meth_to_string
ret r
spec {
    requires all_callable(lineage(*interface)),
    ensures
        says_all(r@, What::CaseC, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(r@, What::PackC, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
}
loop 0 {
    invariant
        all_callable(lineage(*interface)), ident@ == interface.ident.ident@,
        verif_iter.rest() == lineage(*interface).skip(lineage(*interface).len() - verif_iter.rest().len()), 0 <= verif_iter.rest().len() < lineage(*interface).len(),
        says_all(invokes@, What::CaseC, ident@, lineage(*interface), 1, lineage(*interface).len() - verif_iter.rest().len()),
        says_all(invokes@, What::PackC, ident@, lineage(*interface), 1, lineage(*interface).len() - verif_iter.rest().len()),
    ensures
        says_all(invokes@, What::CaseC, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says_all(invokes@, What::PackC, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
    decreases verif_iter.rest().len()
}
body 0 { let ghost c = lineage(*interface); let ghost n = c.len() - verif_iter.rest().len(); proof { if n < c.len() { assert(c.skip(n)[0] == c[n]); assert(c.skip(n).skip(1) =~= c.skip(n + 1)); } } }
loop 1 {
    invariant
        all_callable(c), 0 <= n < c.len(), *iface == c[n], ident@ == interface.ident.ident@,
        it1.seq().len() == iface.nodes@.len(), forall|k: int| 0 <= k < iface.nodes@.len() ==> *(#[trigger] it1.seq()[k]) == iface.nodes@[k],
        says_all(invokes@, What::CaseC, ident@, c, 1, n), says_all(invokes@, What::PackC, ident@, c, 1, n),
        says(invokes@, What::CaseC, ident@, iface.ident.ident@, iface.nodes@, it1.index()),
        says(invokes@, What::PackC, ident@, iface.ident.ident@, iface.nodes@, it1.index()),
}
body 1 { let ghost k = it1.index(); proof { assert(*it1.seq()[k] == iface.nodes@[k]); assert(c[n].nodes@[k] == iface.nodes@[k]); } }
end 1 {
    proof {
        says_next(invokes@, What::CaseC, ident@, iface.ident.ident@, iface.nodes@, k);
        says_next(invokes@, What::PackC, ident@, iface.ident.ident@, iface.nodes@, k);
    }
}
after 1 {
    proof { all_next(invokes@, What::CaseC, ident@, c, 1, n); all_next(invokes@, What::PackC, ident@, c, 1, n); }
}
loop 2 {
    invariant
        all_callable(lineage(*interface)), ident@ == interface.ident.ident@, lineage(*interface)[0] == *interface,
        it2.seq().len() == interface.nodes@.len(), forall|k: int| 0 <= k < interface.nodes@.len() ==> *(#[trigger] it2.seq()[k]) == interface.nodes@[k],
        says_all(invokes@, What::CaseC, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says_all(invokes@, What::PackC, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says(invokes@, What::CaseC, ident@, ident@, interface.nodes@, it2.index()),
        says(invokes@, What::PackC, ident@, ident@, interface.nodes@, it2.index()),
}
body 2 { let ghost k = it2.index(); proof { assert(*it2.seq()[k] == interface.nodes@[k]); assert(lineage(*interface)[0].nodes@[k] == interface.nodes@[k]); } }
end 2 {
    proof {
        says_next(invokes@, What::CaseC, ident@, ident@, interface.nodes@, k);
        says_next(invokes@, What::PackC, ident@, ident@, interface.nodes@, k);
    }
}
after 2 {
    proof {
        all_own(invokes@, What::CaseC, ident@, lineage(*interface), lineage(*interface).len() as int);
        all_own(invokes@, What::PackC, ident@, lineage(*interface), lineage(*interface).len() as int);
    }
}
@*/

}
}
fn main() {}
