//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
//@include mirtypes
//@include wire_spec
//@contracts structs counts
//@include bundle_spec
//@contracts bundle_new bundle
//@include order_spec
//@contracts order_new order
//@include slots_spec
//@include slots_text
//@contracts object_paths objects
//@include counter_spec
//@contracts counter_new counts
//@include emission_spec
verus! {

global size_of usize == 8;

pub use serialization::TransportBuffer;
pub mod serialization {
    use super::*;
    pub struct TransportBuffer { pub definition: String, pub size: usize, pub initialization: String }
    #[verifier::external_body]
    pub struct PackedPrimitives<'a> { x: std::marker::PhantomData<&'a u8> }
    impl<'a> PackedPrimitives<'a> {
        #[verifier::external_body]
        pub fn new(p: &'a super::PackedPrimitives) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_definition(&self, is_invoke: bool) -> Option<TransportBuffer> { unimplemented!() }
        #[verifier::external_body]
        pub fn bo_definition(&self, is_invoke: bool) -> Option<TransportBuffer> { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_assignments(&self) -> String { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_embedded(&self) -> String { unimplemented!() }
        #[verifier::external_body]
        pub fn post_bo_assignments(&self) -> String { unimplemented!() }
    }
}
pub mod signature {
    use super::*;
    #[verifier::external_body]
    pub struct Signature { x: u8 }
    #[verifier::external_body]
    pub struct Names { x: u8 }
    impl Signature {
        #[verifier::external_body]
        pub fn new(f: &Function, counts: &Counter) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn params(&self) -> Names { unimplemented!() }
        #[verifier::external_body]
        pub fn return_idents(&self) -> Names { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn iter_to_string(n: Names) -> String { unimplemented!() }
}
#[verifier::external_body]
pub fn const_value(c: &Const) -> String { unimplemented!() }
pub mod functions { pub mod signature { pub use super::super::signature::*; } pub mod implementation { pub use super::super::stub_cpp::emit; } pub mod invoke { pub use super::super::skeleton_cpp::emit; } }
pub mod idlc_codegen_c { pub mod interface { pub mod functions { pub mod implementation { pub use super::super::super::super::stub::Implementation; } pub mod invoke { pub use super::super::super::super::skeleton::Invoke; } pub mod signature { pub use super::super::super::super::signature::iter_to_string; } } } }
/// a text with something in it replaced
pub uninterp spec fn replaced<P>(t: Seq<char>, c: P, s: Seq<char>) -> Seq<char>;
pub trait Replace { spec fn before(&self) -> Seq<char>; fn replace_<P>(&self, c: P, s: &str) -> (r: String) ensures r@ == replaced(self.before(), c, s@); fn remove_(&mut self, i: usize) -> char; }
impl Replace for String {
    open spec fn before(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn replace_<P>(&self, c: P, s: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn remove_(&mut self, i: usize) -> char { unimplemented!() }
}
#[verifier::external_body]
pub fn change_primitive(p: Primitive) -> &'static str { unimplemented!() }

}
//@contracts slots_c_visitors slots_c
pub mod stub_cpp {
use super::*;
use super::stub::{gained, of_kind, fills};
use vstd::prelude::*;
verus! {
broadcast use {text, all_slots, all_said};

/// the text is about the n objects from the i-th slot on
pub open spec fn loops(t: Seq<char>, i: int, n: int) -> bool { holds(t, "a["@ + numeral(i) + "+arg_idx]"@) && holds(t, "arg_idx<"@ + numeral(n) + ";"@) }

/*@ idlc_codegen_cpp/src/interface/functions/implementation.rs | struct Implementation | @*/
impl Implementation {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.0.idx == 0, r.0.args@.len() == 0,
    { unimplemented!() }
}
/*@ idlc_codegen_cpp/src/interface/functions/implementation.rs | impl ParameterVisitor Implementation | inherit=idlc_codegen/src/functions.rs#ParameterVisitor,keep_trait,mods=serialization,fmt,marks=a[;$];+arg_idx];arg_idx<;$%;.o~=~;.b~=~;.bi~=~,consts=idlc_codegen_c/src/interface/variable_names.rs,meth_to_string,meth_contains,meth_push_str,gives_up,range_into
sub impl ParameterVisitor for Implementation { => impl ParameterVisitor for Implementation { open spec fn inner() -> bool { true } open spec fn handled(&self) -> nat { self.0.handled() } open spec fn knows(&self, k: Seq<Slot>) -> bool { self.0.knows(k) }
in visit_input_object_array start { let ghost was = self.0; }
in visit_input_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, gained(was, self.0, Slot::Oi, it0.index()),
}
in visit_input_struct_objects start { let ghost was = self.0; }
in visit_input_struct_objects loop 0 {
    invariant
        wf_struct(*ty, ty.fields@.len() as int), it0.seq().len() == objs(*ty), was.idx + objs(*ty) <= ENOUGH,
        gained(was, self.0, Slot::Oi, it0.index()),
}
in visit_input_object spec { ensures gained(old(self).0, final(self).0, Slot::Oi, 1), }
in visit_output_object spec { ensures gained(old(self).0, final(self).0, Slot::Oo, 1), told(old(self).0.post_call@, final(self).0.post_call@, old(self).0.idx as int, 1), }
in visit_output_object_array spec { ensures grown(old(self).0.post_call@, final(self).0.post_call@, 1), loops(final(self).0.post_call@.last()@, old(self).0.idx as int, cnt@ as int), }
in visit_output_object_array start { let ghost was = self.0; }
in visit_output_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, self.0.idx == was.idx + 1, self.0.post_call@ == was.post_call@, grown(was.args@, self.0.args@, it0.index()),
        forall|i: int| was.args@.len() <= i < self.0.args@.len() ==> of_kind((#[trigger] self.0.args@[i])@, Slot::Oo),
}
in visit_output_object_array loop 1 {
    invariant was.idx + cnt@ <= ENOUGH, cnt@ > 0, self.0.idx == was.idx + 1 + it1.index(), grown(was.post_call@, self.0.post_call@, 1), loops(self.0.post_call@.last()@, was.idx as int, cnt@ as int), grown(was.args@, self.0.args@, cnt@ as int),
        forall|i: int| was.args@.len() <= i < self.0.args@.len() ==> of_kind((#[trigger] self.0.args@[i])@, Slot::Oo),
}
in visit_output_struct_objects spec { ensures told(old(self).0.post_call@, final(self).0.post_call@, old(self).0.idx as int, objs(*ty) as int), }
in visit_output_struct_objects start { let ghost was = self.0; }
in visit_output_struct_objects loop 0 {
    invariant
        wf_struct(*ty, ty.fields@.len() as int), it0.seq().len() == objs(*ty), was.idx + objs(*ty) <= ENOUGH,
        gained(was, self.0, Slot::Oo, it0.index()), told(was.post_call@, self.0.post_call@, was.idx as int, it0.index()),
}
@*/

/*@ idlc_codegen_cpp/src/interface/functions/implementation.rs | fn Implementation::new |
ret r
sub visit_params_with_bundling(function, &mut me); => proof { assert(me.knows(Seq::empty())); } visit_params_with_bundling(function, &mut me);
spec {
    requires callable(*function),
    ensures fills(r.0.args@, wire_kinds(function.params@)),
}
tail { proof { assert(Seq::<Slot>::empty() + wire_kinds(function.params@) =~= wire_kinds(function.params@)); } }
@*/

/// the initialiser of the argument array, further in
pub open spec fn array_of(a: Seq<String>) -> Seq<char> { "ObjectArg a[] = {"@ + replaced(flat(a), '\n', "\n    "@) }
pub open spec fn has_array(t: Seq<char>, k: Seq<Slot>) -> bool { exists|a: Seq<String>| fills(a, k) && #[trigger] holds(t, array_of(a)) }
pub proof fn array_not_empty()
    ensures "ObjectArg a[] = {"@.len() > 0,
{
    reveal_strlit("ObjectArg a[] = {");
}
/*@ idlc_codegen_cpp/src/interface/functions/implementation.rs | struct Definition | @*/
/*@ idlc_codegen_cpp/src/interface/functions/implementation.rs | fn Definition::inline | fmt
ret r
spec { ensures forall|p: Seq<char>| #[trigger] holds(self.body@, p) ==> holds(r@, p), }
@*/
/*@ idlc_codegen_cpp/src/interface/functions/implementation.rs | fn Definition::declaration | fmt @*/
/*@ idlc_codegen_cpp/src/interface/functions/implementation.rs | fn Definition::definition | fmt
ret r
spec { ensures forall|p: Seq<char>| #[trigger] holds(self.body@, p) ==> holds(r@, p), }
@*/

/*@ idlc_codegen_cpp/src/interface/functions/implementation.rs | fn emit | fmt,mods=signature,consts=idlc_codegen_c/src/interface/variable_names.rs,marks=ObjectArg~a[]~=~{,meth_to_string,meth_is_empty,meth_replace,meth_remove
ret r
sub documentation: &str => documentation: &Documentation
spec {
    requires
        callable(*function),
        counts.input_buffers == buffers(function.params@, true), counts.output_buffers == buffers(function.params@, false),
        counts.input_objects == objects(function.params@, true), counts.output_objects == objects(function.params@, false),
    ensures
        holds(r.body@, call_x(*function)),
        slots_of(*function) > 0 ==> has_array(r.body@, wire_kinds(function.params@)),
}
start { proof { array_not_empty(); } }
tail { proof { if slots_of(*function) > 0 { assert(fills(implementation.0.args@, wire_kinds(function.params@))); assert(holds(object_args@, array_of(implementation.0.args@))); assert(object_args@.len() > 0); let a = implementation.0.args@; assert(fills(a, wire_kinds(function.params@)) && holds(body@, array_of(a))); assert(has_array(body@, wire_kinds(function.params@))); } } }
@*/

}
}
pub mod skeleton_cpp {
use super::*;
use super::skeleton::{demands, demanded};
use vstd::prelude::*;
verus! {
broadcast use {text, all_slots, all_said};

/*@ idlc_codegen_cpp/src/interface/functions/invoke.rs | struct Invoke | @*/
impl Invoke {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.0.idx == 0,
    { unimplemented!() }
}
/*@ idlc_codegen_cpp/src/interface/functions/invoke.rs | impl ParameterVisitor Invoke | inherit=idlc_codegen/src/functions.rs#ParameterVisitor,keep_trait,mods=serialization,fmt,marks=a[;];.b.size~!=~,consts=idlc_codegen_c/src/interface/variable_names.rs,meth_to_string,meth_contains,meth_push_str,gives_up,range_into,opt_unwrap_or
sub impl ParameterVisitor for Invoke { => impl ParameterVisitor for Invoke { open spec fn inner() -> bool { true } open spec fn handled(&self) -> nat { self.0.handled() } open spec fn knows(&self, k: Seq<Slot>) -> bool { self.0.knows(k) }
in visit_input_primitive spec { ensures
    told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1),
    demanded(old(self).0.args@, final(self).0.args@, old(self).0.idx as int, psz(ty) as int),
}
in visit_output_primitive spec { ensures
    told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1),
    demanded(old(self).0.args@, final(self).0.args@, old(self).0.idx as int, psz(ty) as int),
}
in visit_input_primitive_buffer spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), }
in visit_input_untyped_buffer spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), }
in visit_input_struct_buffer spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), }
in visit_input_bundled spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), told(old(self).0.args@, final(self).0.args@, old(self).0.idx as int, 1), }
in visit_output_bundled spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), told(old(self).0.args@, final(self).0.args@, old(self).0.idx as int, 1), }
in visit_input_big_struct spec { ensures
    told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1),
    demanded(old(self).0.args@, final(self).0.args@, old(self).0.idx as int, size_of_struct(*ty) as int),
}
in visit_output_big_struct spec { ensures
    told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1),
    demanded(old(self).0.args@, final(self).0.args@, old(self).0.idx as int, size_of_struct(*ty) as int),
}
in visit_input_object spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), }
in visit_input_object_array spec { ensures told_all(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, cnt@ as int), }
in visit_output_primitive_buffer spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), told(old(self).0.post@, final(self).0.post@, old(self).0.idx as int, 1), }
in visit_output_untyped_buffer spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), told(old(self).0.post@, final(self).0.post@, old(self).0.idx as int, 1), }
in visit_output_struct_buffer spec { ensures told(old(self).0.pre@, final(self).0.pre@, old(self).0.idx as int, 1), told(old(self).0.post@, final(self).0.post@, old(self).0.idx as int, 1), }
in visit_output_object spec { ensures told(old(self).0.post@, final(self).0.post@, old(self).0.idx as int, 1), }
in visit_output_object_array spec { ensures told_all(old(self).0.post@, final(self).0.post@, old(self).0.idx as int, cnt@ as int), }
in visit_input_object_array start { let ghost was = self.0; }
in visit_input_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, self.0.idx == was.idx + it0.index(), self.0.pre@ == was.pre@, all_used(obj_args@, was.idx as int, it0.index()),
}
in visit_output_object_array start { let ghost was = self.0; }
in visit_output_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, self.0.idx == was.idx + it0.index(), self.0.post@ == was.post@, all_used(obj_assign@, was.idx as int, it0.index()),
}
@*/

/*@ idlc_codegen_cpp/src/interface/functions/invoke.rs | fn Invoke::new |
sub visit_params_with_bundling(function, &mut me); => proof { assert(me.knows(Seq::empty())); } visit_params_with_bundling(function, &mut me);
spec { requires callable(*function), }
@*/

/*@ idlc_codegen_cpp/src/interface/functions/invoke.rs | fn emit | fmt,mods=signature,consts=idlc_codegen_c/src/interface/variable_names.rs,marks=case~OP_;$:~{;if~(k~!=~ObjectCounts_pack,meth_to_string,meth_push_str,meth_is_empty,meth_replace,meth_remove
ret r
spec {
    requires
        callable(*function),
        counts.input_buffers == buffers(function.params@, true), counts.output_buffers == buffers(function.params@, false),
        counts.input_objects == objects(function.params@, true), counts.output_objects == objects(function.params@, false),
    ensures
        holds(r@, case_x(*function)),
        holds(r@, pack_x(*function)),
}
@*/

}
}
// ---------------------------------------------------------------- the classes of an interface
pub mod eithers {
use super::*;
use vstd::prelude::*;
verus! {
/// of each of the first k members one of the texts has the part
#[verifier::opaque]
pub open spec fn either(t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> holds(t, part(w, ident, iface, #[trigger] m[i])) || holds(u, part(w, ident, iface, m[i]))
}
#[verifier::opaque]
pub open spec fn either_all(t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int) -> bool {
    forall|j: int| a <= j < n ==> either(t, u, w, ident, (#[trigger] c[j]).ident.ident@, c[j].nodes@, c[j].nodes@.len() as int)
}
pub broadcast proof fn either_none(t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>)
    ensures #[trigger] either(t, u, w, ident, iface, m, 0),
{ reveal(either); }
pub proof fn either_next(t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires either(t, u, w, ident, iface, m, k), holds(t, part(w, ident, iface, m[k])) || holds(u, part(w, ident, iface, m[k])) || part(w, ident, iface, m[k]).len() == 0, 0 <= k < m.len(),
    ensures either(t, u, w, ident, iface, m, k + 1),
{
    reveal(either);
    if part(w, ident, iface, m[k]).len() == 0 {
        holds_in(t, part(w, ident, iface, m[k]), Seq::empty());
        assert(t + part(w, ident, iface, m[k]) + Seq::<char>::empty() =~= t);
    }
}
pub broadcast proof fn either_before(t: Seq<char>, u: Seq<char>, e: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires #[trigger] either(t, u, w, ident, iface, m, k),
    ensures either(#[trigger] (t + e), u, w, ident, iface, m, k),
{
    reveal(either);
    assert forall|i: int| 0 <= i < k implies holds(t + e, part(w, ident, iface, #[trigger] m[i])) || holds(u, part(w, ident, iface, m[i])) by { if holds(t, part(w, ident, iface, m[i])) { holds_before(t, e, part(w, ident, iface, m[i])); } }
}
pub broadcast proof fn either_later(t: Seq<char>, u: Seq<char>, e: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires #[trigger] either(t, u, w, ident, iface, m, k),
    ensures either(t, #[trigger] (u + e), w, ident, iface, m, k),
{
    reveal(either);
    assert forall|i: int| 0 <= i < k implies holds(t, part(w, ident, iface, #[trigger] m[i])) || holds(u + e, part(w, ident, iface, m[i])) by { if holds(u, part(w, ident, iface, m[i])) { holds_before(u, e, part(w, ident, iface, m[i])); } }
}
pub broadcast proof fn either_within(x: Seq<char>, t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires #[trigger] either(t, u, w, ident, iface, m, k),
    ensures either(#[trigger] (x + t), u, w, ident, iface, m, k),
{
    reveal(either);
    assert forall|i: int| 0 <= i < k implies holds(x + t, part(w, ident, iface, #[trigger] m[i])) || holds(u, part(w, ident, iface, m[i])) by { if holds(t, part(w, ident, iface, m[i])) { holds_within(x, t, part(w, ident, iface, m[i])); } }
}
pub broadcast proof fn either_all_none(t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int)
    ensures #[trigger] either_all(t, u, w, ident, c, a, a),
{ reveal(either_all); }
pub proof fn either_all_next(t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int)
    requires either_all(t, u, w, ident, c, a, n), either(t, u, w, ident, c[n].ident.ident@, c[n].nodes@, c[n].nodes@.len() as int),
    ensures either_all(t, u, w, ident, c, a, n + 1),
{ reveal(either_all); }
pub proof fn either_own(t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, n: int)
    requires either_all(t, u, w, ident, c, 1, n), either(t, u, w, ident, c[0].ident.ident@, c[0].nodes@, c[0].nodes@.len() as int),
    ensures either_all(t, u, w, ident, c, 0, n),
{ reveal(either_all); }
pub broadcast proof fn either_all_before(t: Seq<char>, u: Seq<char>, e: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int)
    requires #[trigger] either_all(t, u, w, ident, c, a, n),
    ensures either_all(#[trigger] (t + e), u, w, ident, c, a, n),
{
    reveal(either_all);
    assert forall|j: int| a <= j < n implies either(t + e, u, w, ident, (#[trigger] c[j]).ident.ident@, c[j].nodes@, c[j].nodes@.len() as int) by { either_before(t, u, e, w, ident, c[j].ident.ident@, c[j].nodes@, c[j].nodes@.len() as int); }
}
pub broadcast proof fn either_all_later(t: Seq<char>, u: Seq<char>, e: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int)
    requires #[trigger] either_all(t, u, w, ident, c, a, n),
    ensures either_all(t, #[trigger] (u + e), w, ident, c, a, n),
{
    reveal(either_all);
    assert forall|j: int| a <= j < n implies either(t, u + e, w, ident, (#[trigger] c[j]).ident.ident@, c[j].nodes@, c[j].nodes@.len() as int) by { either_later(t, u, e, w, ident, c[j].ident.ident@, c[j].nodes@, c[j].nodes@.len() as int); }
}
pub broadcast proof fn either_all_within(x: Seq<char>, t: Seq<char>, u: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int)
    requires #[trigger] either_all(t, u, w, ident, c, a, n),
    ensures either_all(#[trigger] (x + t), u, w, ident, c, a, n),
{
    reveal(either_all);
    assert forall|j: int| a <= j < n implies either(x + t, u, w, ident, (#[trigger] c[j]).ident.ident@, c[j].nodes@, c[j].nodes@.len() as int) by { either_within(x, t, u, w, ident, c[j].ident.ident@, c[j].nodes@, c[j].nodes@.len() as int); }
}
pub broadcast group all_either { either_none, either_before, either_later, either_within, either_all_none, either_all_before, either_all_later, either_all_within }


}
}
pub mod header_cpp {
use super::*;
use super::eithers::*;
use vstd::prelude::*;
use std::collections::HashSet;
verus! {
broadcast use {text, all_said, all_either};

#[verifier::external_body]
pub fn const_qualifier(p: Primitive) -> &'static str { unimplemented!() }
/// the classes of the objects a function takes (unit functions)
#[verifier::external_body]
pub struct Classes<'a> { x: &'a u8 }
#[verifier::external_body]
pub fn object_types(f: &Function) -> Classes<'_> { unimplemented!() }
impl<'a> Classes<'a> {
    #[verifier::external_body]
    pub fn any<F: FnMut(&'a str) -> bool>(self, f: F) -> bool { unimplemented!() }
}

/*@ idlc_codegen_cpp/src/interface/mod.rs | fn emit_interface_impl | fmt,for_each,for_own=interface,consts=idlc_codegen_c/src/interface/variable_names.rs,marks=static~const~int32_t~;static~const~ObjectOp~OP_,meth_push_str,meth_to_string,meth_is_empty,meth_remove
ret r
spec {
    requires all_callable(lineage(*interface)),
    ensures
        says_all(r@, What::ErrorX, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says(r@, What::OpX, interface.ident.ident@, interface.ident.ident@, interface.nodes@, interface.nodes@.len() as int),
        either_all(r@, final(deferred)@, What::CallX, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
}
loop 0 {
    invariant
        all_callable(lineage(*interface)), ident@ == interface.ident.ident@,
        verif_iter.rest() == lineage(*interface).skip(lineage(*interface).len() - verif_iter.rest().len()), 0 <= verif_iter.rest().len() < lineage(*interface).len(),
        says_all(errors@, What::ErrorX, ident@, lineage(*interface), 1, lineage(*interface).len() - verif_iter.rest().len()),
        either_all(implementations@, deferred@, What::CallX, ident@, lineage(*interface), 1, lineage(*interface).len() - verif_iter.rest().len()),
    ensures
        says_all(errors@, What::ErrorX, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        either_all(implementations@, deferred@, What::CallX, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
    decreases verif_iter.rest().len()
}
body 0 { let ghost c = lineage(*interface); let ghost n = c.len() - verif_iter.rest().len(); proof { if n < c.len() { assert(c.skip(n)[0] == c[n]); assert(c.skip(n).skip(1) =~= c.skip(n + 1)); } } }
loop 1 {
    invariant
        all_callable(c), 0 <= n < c.len(), *iface == c[n], ident@ == interface.ident.ident@,
        it1.seq().len() == iface.nodes@.len(), forall|k: int| 0 <= k < iface.nodes@.len() ==> *(#[trigger] it1.seq()[k]) == iface.nodes@[k],
        says_all(errors@, What::ErrorX, ident@, c, 1, n), either_all(implementations@, deferred@, What::CallX, ident@, c, 1, n),
        says(errors@, What::ErrorX, ident@, iface.ident.ident@, iface.nodes@, it1.index()),
        either(implementations@, deferred@, What::CallX, ident@, iface.ident.ident@, iface.nodes@, it1.index()),
}
body 1 { let ghost k = it1.index(); proof { assert(*it1.seq()[k] == iface.nodes@[k]); assert(c[n].nodes@[k] == iface.nodes@[k]); } }
end 1 {
    proof {
        says_next(errors@, What::ErrorX, ident@, iface.ident.ident@, iface.nodes@, k);
        either_next(implementations@, deferred@, What::CallX, ident@, iface.ident.ident@, iface.nodes@, k);
    }
}
after 1 {
    proof { all_next(errors@, What::ErrorX, ident@, c, 1, n); either_all_next(implementations@, deferred@, What::CallX, ident@, c, 1, n); }
}
loop 2 {
    invariant
        all_callable(lineage(*interface)), ident@ == interface.ident.ident@, lineage(*interface)[0] == *interface,
        it2.seq().len() == interface.nodes@.len(), forall|k: int| 0 <= k < interface.nodes@.len() ==> *(#[trigger] it2.seq()[k]) == interface.nodes@[k],
        says_all(errors@, What::ErrorX, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        either_all(implementations@, deferred@, What::CallX, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says(errors@, What::ErrorX, ident@, ident@, interface.nodes@, it2.index()),
        says(op_codes@, What::OpX, ident@, ident@, interface.nodes@, it2.index()),
        either(implementations@, deferred@, What::CallX, ident@, ident@, interface.nodes@, it2.index()),
}
body 2 { let ghost k = it2.index(); proof { assert(*it2.seq()[k] == interface.nodes@[k]); assert(lineage(*interface)[0].nodes@[k] == interface.nodes@[k]); } }
end 2 {
    proof {
        says_next(errors@, What::ErrorX, ident@, ident@, interface.nodes@, k);
        says_next(op_codes@, What::OpX, ident@, ident@, interface.nodes@, k);
        either_next(implementations@, deferred@, What::CallX, ident@, ident@, interface.nodes@, k);
    }
}
after 2 {
    proof {
        all_own(errors@, What::ErrorX, ident@, lineage(*interface), lineage(*interface).len() as int);
        either_own(implementations@, deferred@, What::CallX, ident@, lineage(*interface), lineage(*interface).len() as int);
    }
}
@*/

/*@ idlc_codegen_cpp/src/interface/mod.rs | fn emit_interface_invoke | fmt,for_each,for_own=interface,meth_push_str,meth_to_string
ret r
spec {
    requires all_callable(lineage(*interface)),
    ensures
        says_all(r@, What::CaseX, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(r@, What::PackX, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
}
loop 0 {
    invariant
        all_callable(lineage(*interface)), ident@ == interface.ident.ident@,
        verif_iter.rest() == lineage(*interface).skip(lineage(*interface).len() - verif_iter.rest().len()), 0 <= verif_iter.rest().len() < lineage(*interface).len(),
        says_all(invokes@, What::CaseX, ident@, lineage(*interface), 1, lineage(*interface).len() - verif_iter.rest().len()),
        says_all(invokes@, What::PackX, ident@, lineage(*interface), 1, lineage(*interface).len() - verif_iter.rest().len()),
    ensures
        says_all(invokes@, What::CaseX, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says_all(invokes@, What::PackX, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
    decreases verif_iter.rest().len()
}
body 0 { let ghost c = lineage(*interface); let ghost n = c.len() - verif_iter.rest().len(); proof { if n < c.len() { assert(c.skip(n)[0] == c[n]); assert(c.skip(n).skip(1) =~= c.skip(n + 1)); } } }
loop 1 {
    invariant
        all_callable(c), 0 <= n < c.len(), *iface == c[n], ident@ == interface.ident.ident@,
        it1.seq().len() == iface.nodes@.len(), forall|k: int| 0 <= k < iface.nodes@.len() ==> *(#[trigger] it1.seq()[k]) == iface.nodes@[k],
        says_all(invokes@, What::CaseX, ident@, c, 1, n), says_all(invokes@, What::PackX, ident@, c, 1, n),
        says(invokes@, What::CaseX, ident@, iface.ident.ident@, iface.nodes@, it1.index()),
        says(invokes@, What::PackX, ident@, iface.ident.ident@, iface.nodes@, it1.index()),
}
body 1 { let ghost k = it1.index(); proof { assert(*it1.seq()[k] == iface.nodes@[k]); assert(c[n].nodes@[k] == iface.nodes@[k]); } }
end 1 {
    proof {
        says_next(invokes@, What::CaseX, ident@, iface.ident.ident@, iface.nodes@, k);
        says_next(invokes@, What::PackX, ident@, iface.ident.ident@, iface.nodes@, k);
    }
}
after 1 {
    proof { all_next(invokes@, What::CaseX, ident@, c, 1, n); all_next(invokes@, What::PackX, ident@, c, 1, n); }
}
loop 2 {
    invariant
        all_callable(lineage(*interface)), ident@ == interface.ident.ident@, lineage(*interface)[0] == *interface,
        it2.seq().len() == interface.nodes@.len(), forall|k: int| 0 <= k < interface.nodes@.len() ==> *(#[trigger] it2.seq()[k]) == interface.nodes@[k],
        says_all(invokes@, What::CaseX, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says_all(invokes@, What::PackX, ident@, lineage(*interface), 1, lineage(*interface).len() as int),
        says(invokes@, What::CaseX, ident@, ident@, interface.nodes@, it2.index()),
        says(invokes@, What::PackX, ident@, ident@, interface.nodes@, it2.index()),
}
body 2 { let ghost k = it2.index(); proof { assert(*it2.seq()[k] == interface.nodes@[k]); assert(lineage(*interface)[0].nodes@[k] == interface.nodes@[k]); } }
end 2 {
    proof {
        says_next(invokes@, What::CaseX, ident@, ident@, interface.nodes@, k);
        says_next(invokes@, What::PackX, ident@, ident@, interface.nodes@, k);
    }
}
after 2 {
    proof {
        all_own(invokes@, What::CaseX, ident@, lineage(*interface), lineage(*interface).len() as int);
        all_own(invokes@, What::PackX, ident@, lineage(*interface), lineage(*interface).len() as int);
    }
}
@*/

}
}
fn main() {}
