//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
//@include mirtypes
//@include wire_spec
//@contracts structs counts
//@include bundle_spec
//@contracts bundle_new bundle
//@include order_spec
//@contracts order_new order
//@include slots_spec
//@include slots_text
//@contracts object_paths objects
//@include counter_spec
//@contracts counter_new counts
//@include emission_spec
verus! {

global size_of usize == 8;

pub use serialization::TransportBuffer;
pub use signature::{iter_to_string, Signature};
pub mod serialization {
    use super::*;
    pub struct TransportBuffer { pub definition: String, pub size: usize }
    #[verifier::external_body]
    pub struct PackedPrimitives<'a> { x: std::marker::PhantomData<&'a u8> }
    impl<'a> PackedPrimitives<'a> {
        #[verifier::external_body]
        pub fn new(p: &'a super::PackedPrimitives) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_definition(&self) -> Option<TransportBuffer> { unimplemented!() }
        #[verifier::external_body]
        pub fn bo_definition(&self) -> Option<TransportBuffer> { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_assignment_idents(&self) -> super::signature::Names { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_definition_idents(&self) -> super::signature::Names { unimplemented!() }
        #[verifier::external_body]
        pub fn bo_idents(&self) -> super::signature::Names { unimplemented!() }
        #[verifier::external_body]
        pub fn post_bi_assignments(&self) -> String { unimplemented!() }
    }
}
pub mod signature {
    use super::*;
    #[verifier::external_body]
    pub struct Signature { x: u8 }
    #[verifier::external_body]
    pub struct Names { x: u8 }
    impl Signature {
        #[verifier::external_body]
        pub fn new(f: &Function) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn params(&self) -> Names { unimplemented!() }
        #[verifier::external_body]
        pub fn param_idents(&self) -> Names { unimplemented!() }
        #[verifier::external_body]
        pub fn return_idents(&self) -> Names { unimplemented!() }
        #[verifier::external_body]
        pub fn return_types(&self) -> Names { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn iter_to_string(n: Names) -> String { unimplemented!() }
}
pub mod functions {
    pub mod signature { pub use super::super::signature::*; }
    pub mod implementation { pub use super::super::proxy::emit; }
    pub mod invoke { pub use super::super::skeleton::emit; }
    pub mod traits {
        use super::super::*;
        #[verifier::external_body]
        pub fn emit(function: &Function, documentation: &Documentation, signature: &signature::Signature) -> String { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn change_primitive(p: Primitive) -> &'static str { unimplemented!() }
#[verifier::external_body]
pub fn namespaced_struct(s: &StructInner) -> &'static str { unimplemented!() }

/*@ idlc_codegen_rust/src/ident.rs | struct EscapedIdent | @*/
/*@ idlc_codegen_rust/src/ident.rs | fn EscapedIdent::new |
ret r
spec { ensures r.0 == ident }
@*/
impl<'a> Clone for EscapedIdent<'a> { fn clone(&self) -> (r: Self) ensures r == *self { EscapedIdent(self.0) } }
impl<'a> Copy for EscapedIdent<'a> {}
impl<'a> AsText for EscapedIdent<'a> {
    open spec fn as_text(&self) -> Seq<char> { "r#"@ + self.0.ident@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}
/// derived
impl Clone for Counter {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for Counter {}
/// a text of the kind std::borrow::Cow
pub enum Cow { Borrowed(&'static str), Owned(String) }
impl AsText for Cow {
    uninterp spec fn as_text(&self) -> Seq<char>;
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}
pub trait Lower { fn to_lowercase_(&self) -> String; }
impl Lower for str {
    #[verifier::external_body]
    fn to_lowercase_(&self) -> String { unimplemented!() }
}
impl Ident {
    #[verifier::external_body]
    pub fn new(ident: String, span: Span) -> (r: Self)
        ensures r.ident == ident,
    { unimplemented!() }
}
pub trait Join { spec fn pieces(&self) -> Seq<String>; fn join_(&self, s: &str) -> (r: String) ensures r@ == joined(self.pieces(), s@); }
impl Join for Vec<String> {
    open spec fn pieces(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn join_(&self, s: &str) -> (r: String) { unimplemented!() }
}
/// texts with another between them
pub open spec fn joined(v: Seq<String>, s: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { joined(v.drop_last(), s) + s + v.last()@ }
}
/// how a tuple of four numbers is displayed
pub trait Tuple { spec fn shown(&self) -> Seq<char>; fn to_debug_(&self) -> (r: String) ensures r@ == self.shown(); }
impl Tuple for (u8, u8, u8, u8) {
    open spec fn shown(&self) -> Seq<char> { four(self.0 as int, self.1 as int, self.2 as int, self.3 as int) }
    #[verifier::external_body]
    fn to_debug_(&self) -> (r: String) { unimplemented!() }
}

/// four neighbouring pieces
pub broadcast proof fn holds_four(x: Seq<char>, p: Seq<char>, d: Seq<char>, q: Seq<char>, r: Seq<char>)
    ensures holds(#[trigger] (x + p + d + q + r), p + d + q + r),
{
    holds_in(x, p + d + q + r, Seq::empty());
    assert(x + p + d + q + r =~= x + (p + d + q + r) + Seq::<char>::empty());
}

/// the i-th slot
pub open spec fn aslot(i: int) -> Seq<char> { "_args["@ + numeral(i) + "]"@ }
pub open spec fn about(t: Seq<char>, i: int) -> bool { holds(t, aslot(i)) }
/// the last of n more texts is about the i-th slot
pub open spec fn tells(was: Seq<String>, now: Seq<String>, i: int, n: int) -> bool { grown(was, now, n) && about(now.last()@, i) }
/// n more texts, each about a slot of its own
pub open spec fn tells_each(was: Seq<String>, now: Seq<String>, from: int, n: int) -> bool {
    grown(was, now, n) && forall|i: int| was.len() <= i < now.len() ==> about((#[trigger] now[i])@, from + i - was.len())
}
pub open spec fn asked(i: int, d: bool) -> Seq<char> { "_args["@ + numeral(i) + "]"@ + (if d { ".bi.size != "@ } else { ".b.size != "@ }) }
/// (the two kinds of buffers are laid out alike)
pub open spec fn asks_size(t: Seq<char>, i: int) -> bool { holds(t, asked(i, true)) || holds(t, asked(i, false)) }
/// the first of n more texts demands the size of a buffer
pub open spec fn demands(was: Seq<String>, now: Seq<String>, i: int, n: int) -> bool {
    &&& grown(was, now, n)
    &&& asks_size(now[was.len() as int]@, i)
}

}
pub mod proxy {
use super::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_said};

/// what a slot is initialised with: an object, or a buffer
pub open spec fn of_kind(t: Seq<char>, s: Slot) -> bool {
    match s { Slot::Bi => holds(t, "bi: "@), Slot::Bo => holds(t, "b: "@) || holds(t, "bi: "@), Slot::Oi => holds(t, "o: std::mem::ManuallyDrop::new("@), Slot::Oo => holds(t, "o: std::mem::ManuallyDrop::new(None)"@) }
}
/// n more slots, all of a kind
pub open spec fn gained(was: Implementation, now: Implementation, s: Slot, n: int) -> bool {
    &&& grown(was.args@, now.args@, n)
    &&& forall|i: int| was.args@.len() <= i < now.args@.len() ==> of_kind((#[trigger] now.args@[i])@, s)
}
/// an initialiser for each argument, of its kind
pub open spec fn fills(a: Seq<String>, k: Seq<Slot>) -> bool {
    a.len() == k.len() && forall|i: int| 0 <= i < k.len() ==> of_kind((#[trigger] a[i])@, k[i])
}
/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | struct Implementation | @*/
impl Implementation {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.args@.len() == 0, r.post_call@.len() == 0, r.initializations@.len() == 0,
    { unimplemented!() }
}
/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | fn Implementation::add_output_object | fmt,consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs;idlc_codegen_rust/src/interface/functions/implementation.rs,marks=o:~std::mem::ManuallyDrop::new(None),meth_to_string
spec { ensures gained(*old(self), *final(self), Slot::Oo, 1), final(self).post_call@ == old(self).post_call@, final(self).initializations@ == old(self).initializations@, }
@*/
/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | fn Implementation::generate_input_buffer | fmt,consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs;idlc_codegen_rust/src/interface/functions/implementation.rs,marks=bi:~,meth_to_string
spec { ensures gained(*old(self), *final(self), Slot::Bi, 1), final(self).post_call@ == old(self).post_call@, final(self).initializations@ == old(self).initializations@, }
@*/
/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | fn Implementation::generate_output_buffer | fmt,consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs;idlc_codegen_rust/src/interface/functions/implementation.rs,marks=b:~;_args[;$],meth_to_string
spec { ensures gained(*old(self), *final(self), Slot::Bo, 1), tells(old(self).post_call@, final(self).post_call@, old(self).args@.len() as int, 1), final(self).initializations@ == old(self).initializations@, }
@*/
/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | impl ParameterVisitor Implementation | inherit=idlc_codegen/src/functions.rs#ParameterVisitor,keep_trait,mods=serialization,fmt,marks=_args[;$];bi:~;b:~;o:~std::mem::ManuallyDrop::new(;o:~std::mem::ManuallyDrop::new(None),consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs;idlc_codegen_rust/src/interface/functions/implementation.rs,meth_to_string,meth_push_str,meth_to_lowercase,opt_map_or,add_assign,gives_up,const_paths
sub impl ParameterVisitor for Implementation { => impl ParameterVisitor for Implementation { open spec fn inner() -> bool { true } open spec fn handled(&self) -> nat { self.args@.len() } open spec fn knows(&self, k: Seq<Slot>) -> bool { fills(self.args@, k) }
in visit_input_primitive_buffer spec { ensures gained(*old(self), *final(self), Slot::Bi, 1), }
in visit_input_struct_buffer spec { ensures gained(*old(self), *final(self), Slot::Bi, 1), }
in visit_input_primitive spec { ensures gained(*old(self), *final(self), Slot::Bi, 1), }
in visit_input_bundled spec { ensures gained(*old(self), *final(self), Slot::Bi, 1), }
in visit_input_big_struct spec { ensures gained(*old(self), *final(self), Slot::Bi, 1), }
in visit_input_object spec { ensures gained(*old(self), *final(self), Slot::Oi, 1), }
in visit_input_object_array start { let ghost was = *self; }
in visit_input_object_array loop 0 {
    invariant was.args@.len() + cnt@ <= ENOUGH, gained(was, *self, Slot::Oi, it0.index()),
}
in visit_input_struct_objects start { let ghost was = *self; }
in visit_input_struct_objects loop 0 {
    invariant it0.seq().len() == objs(*raw_struct), gained(was, *self, Slot::Oi, it0.index()),
}
in visit_output_primitive_buffer spec { ensures tells(old(self).post_call@, final(self).post_call@, old(self).args@.len() as int, 1), }
in visit_output_struct_buffer spec { ensures tells(old(self).post_call@, final(self).post_call@, old(self).args@.len() as int, 1), }
in visit_output_object spec { ensures tells(old(self).post_call@, final(self).post_call@, old(self).args@.len() as int, 1), }
in visit_output_object_array spec { ensures told_then(old(self).post_call@, final(self).post_call@, old(self).args@.len() as int, cnt@ as int), }
in visit_output_object_array start { let ghost was = *self; }
in visit_output_object_array loop 0 {
    invariant was.args@.len() + cnt@ <= ENOUGH, gained(was, *self, Slot::Oo, it0.index()), tells_each(was.post_call@, self.post_call@, was.args@.len() as int, it0.index()),
}
in visit_output_struct_objects spec { ensures told_then(old(self).post_call@, final(self).post_call@, old(self).args@.len() as int, objs(*raw_struct) as int), }
in visit_output_struct_objects start { let ghost was = *self; }
in visit_output_struct_objects loop 0 {
    invariant it0.seq().len() == objs(*raw_struct), gained(was, *self, Slot::Oo, it0.index()), tells_each(was.post_call@, self.post_call@, was.args@.len() as int, it0.index()),
}
@*/
/// n more texts, each about a slot of its own, and one after them
pub open spec fn told_then(was: Seq<String>, now: Seq<String>, from: int, n: int) -> bool {
    grown(was, now, n + 1) && forall|i: int| was.len() <= i < now.len() - 1 ==> about((#[trigger] now[i])@, from + i - was.len())
}

/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | fn Implementation::new |
ret r
sub visit_params_with_bundling(function, &mut me); => proof { assert(me.knows(Seq::empty())); } visit_params_with_bundling(function, &mut me);
spec {
    requires callable(*function),
    ensures fills(r.args@, wire_kinds(function.params@)),
}
tail { proof { assert(Seq::<Slot>::empty() + wire_kinds(function.params@) =~= wire_kinds(function.params@)); } }
@*/
/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | fn Implementation::args | meth_join
ret r
spec { ensures r@ == joined(self.args@, ","@), }
@*/
/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | fn Implementation::initializations | meth_concat @*/
/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | fn Implementation::post_call_assignments | meth_concat @*/

pub open spec fn array_of(a: Seq<String>) -> Seq<char> { "let mut _args = ["@ + joined(a, ","@) + "];"@ }
pub open spec fn has_array(t: Seq<char>, k: Seq<Slot>) -> bool { exists|a: Seq<String>| fills(a, k) && #[trigger] holds(t, array_of(a)) }

/*@ idlc_codegen_rust/src/interface/functions/implementation.rs | fn emit | fmt,consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs;idlc_codegen_rust/src/interface/functions/implementation.rs,marks=let~mut~_args~=~[;$]%;self.0.invoke(;^~_args.as_mut_ptr()^~crate::object::pack_counts,meth_to_string
ret r
sub documentation: &str => documentation: &Documentation
spec {
    requires
        callable(*function),
        counts.input_buffers == buffers(function.params@, true), counts.output_buffers == buffers(function.params@, false),
        counts.input_objects == objects(function.params@, true), counts.output_objects == objects(function.params@, false),
    ensures
        holds(r@, call_r(*function)),
        has_array(r@, wire_kinds(function.params@)),
}
start { broadcast use holds_four; }
tail { proof { assert(fills(implementation.args@, wire_kinds(function.params@))); assert(array_of(implementation.args@) == "let mut _args = ["@ + args@ + "];"@); } }
@*/

}
}
pub mod abouts {
use super::*;
use vstd::prelude::*;
verus! {
/// the text is about n slots
#[verifier::opaque]
pub open spec fn about_all(t: Seq<char>, from: int, n: int) -> bool { forall|i: int| from <= i < from + n ==> #[trigger] about(t, i) }

pub broadcast proof fn about_none(t: Seq<char>, from: int)
    ensures #[trigger] about_all(t, from, 0),
{
    reveal(about_all);
}
pub broadcast proof fn about_next(t: Seq<char>, from: int, n: int, i: int)
    requires #[trigger] about_all(t, from, n), #[trigger] holds(t, "_args["@ + numeral(i) + "]"@), i == from + n,
    ensures about_all(t, from, n + 1),
{
    reveal(about_all);
}
pub broadcast proof fn about_before(e: Seq<char>, y: Seq<char>, from: int, n: int)
    requires #[trigger] about_all(e, from, n),
    ensures about_all(#[trigger] (e + y), from, n),
{
    reveal(about_all);
    assert forall|i: int| from <= i < from + n implies #[trigger] about(e + y, i) by { assert(about(e, i)); holds_before(e, y, aslot(i)); }
}
pub broadcast group all_about { about_none, about_next, about_before }
}
}
pub use abouts::{all_about, about_all};
pub mod skeleton {
use super::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_said, all_about, holds_four};

pub struct HashMap { x: u8 }
impl HashMap {
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: usize) { unimplemented!() }
}
/// where the buffer of an output struct with objects is: noted when the buffer was seen
#[verifier::external_body]
pub fn place(m: &HashMap, k: String) -> usize { unimplemented!() }
/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | struct Invoke |
sub HashMap<String, usize> => HashMap
@*/
impl Invoke {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.idx == 0, r.pre@.len() == 0, r.post@.len() == 0,
    { unimplemented!() }
}
/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | fn Invoke::idx |
ret r
spec {
    requires old(self).idx < usize::MAX,
    ensures r == old(self).idx, *final(self) == (Invoke { idx: final(self).idx, ..*old(self) }), final(self).idx == old(self).idx + 1,
}
@*/
/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | fn Invoke::generate_for_input_buffer | fmt,consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs,marks=_args[;$],meth_to_string
spec { requires old(self).idx < usize::MAX, ensures final(self).idx == old(self).idx + 1, tells(old(self).pre@, final(self).pre@, old(self).idx as int, 1), final(self).post@ == old(self).post@, }
@*/
/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | fn Invoke::generate_for_output_buffer | fmt,consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs,marks=_args[;$],meth_to_string
spec { requires old(self).idx < usize::MAX, ensures final(self).idx == old(self).idx + 1, tells(old(self).pre@, final(self).pre@, old(self).idx as int, 2), grown(old(self).post@, final(self).post@, 1), }
@*/
/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | impl ParameterVisitor Invoke | inherit=idlc_codegen/src/functions.rs#ParameterVisitor,keep_trait,mods=serialization,fmt,marks=_args[;$];.bi.size~!=~;.b.size~!=~,consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs,meth_to_string,meth_push_str,meth_to_lowercase,opt_map_or,add_assign,gives_up
sub impl ParameterVisitor for Invoke { => impl ParameterVisitor for Invoke { open spec fn inner() -> bool { true } open spec fn handled(&self) -> nat { self.idx as nat } open spec fn knows(&self, k: Seq<Slot>) -> bool { self.idx == k.len() }
sub self.struct_idx[&ident.to_string_()] => place(&self.struct_idx, ident.to_string_())
in visit_input_primitive_buffer spec { ensures tells(old(self).pre@, final(self).pre@, old(self).idx as int, 1), }
in visit_input_struct_buffer spec { ensures tells(old(self).pre@, final(self).pre@, old(self).idx as int, 1), }
in visit_input_primitive spec { ensures demands(old(self).pre@, final(self).pre@, old(self).idx as int, 2), tells(old(self).pre@, final(self).pre@, old(self).idx as int, 2), }
in visit_input_bundled spec { ensures asks(old(self).pre@, final(self).pre@, old(self).idx as int, 1), }
in visit_input_big_struct spec { ensures demands(old(self).pre@, final(self).pre@, old(self).idx as int, 2), tells(old(self).pre@, final(self).pre@, old(self).idx as int, 2), }
in visit_input_object spec { ensures tells(old(self).pre@, final(self).pre@, old(self).idx as int, 1), }
in visit_input_object_array spec { ensures grown(old(self).pre@, final(self).pre@, 1), about_all(final(self).pre@.last()@, old(self).idx as int, cnt@ as int), }
in visit_input_object_array start { let ghost was = *self; }
in visit_input_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, self.idx == was.idx + it0.index(), self.pre@ == was.pre@, about_all(definition@, was.idx as int, it0.index()),
}
in visit_input_struct_objects spec { ensures told_then(old(self).pre@, final(self).pre@, old(self).idx as int, objs(*raw_struct) as int), }
in visit_input_struct_objects start { let ghost was = *self; }
in visit_input_struct_objects loop 0 {
    invariant was.idx + objs(*raw_struct) <= ENOUGH, it0.seq().len() == objs(*raw_struct), self.idx == was.idx + it0.index(), tells_each(was.pre@, self.pre@, was.idx as int, it0.index()),
}
in visit_output_primitive_buffer spec { ensures tells(old(self).pre@, final(self).pre@, old(self).idx as int, 2), grown(old(self).post@, final(self).post@, 1), }
in visit_output_struct_buffer spec { ensures tells(old(self).pre@, final(self).pre@, old(self).idx as int, 2), grown(old(self).post@, final(self).post@, 1), }
in visit_output_primitive spec { ensures demands(old(self).pre@, final(self).pre@, old(self).idx as int, 1), tells(old(self).post@, final(self).post@, old(self).idx as int, 1), }
in visit_output_bundled spec { ensures asks(old(self).pre@, final(self).pre@, old(self).idx as int, 1), tells(old(self).post@, final(self).post@, old(self).idx as int, 1), }
in visit_output_big_struct spec { ensures demands(old(self).pre@, final(self).pre@, old(self).idx as int, 1), objs(*raw_struct) == 0 ==> tells(old(self).post@, final(self).post@, old(self).idx as int, 1), }
in visit_output_object spec { ensures tells(old(self).post@, final(self).post@, old(self).idx as int, 1), }
in visit_output_object_array spec { ensures then_told(old(self).post@, final(self).post@, old(self).idx as int, cnt@ as int), }
in visit_output_object_array start { let ghost was = *self; }
in visit_output_object_array loop 0 {
    invariant was.idx + cnt@ <= ENOUGH, self.idx == was.idx + it0.index(), then_told(was.post@, self.post@, was.idx as int, it0.index()),
}
in visit_output_struct_objects spec { ensures told_twice(old(self).post@, final(self).post@.drop_last(), old(self).idx as int, objs(*raw_struct) as int), }
in visit_output_struct_objects start { let ghost was = *self; }
in visit_output_struct_objects loop 0 {
    invariant was.idx + objs(*raw_struct) <= ENOUGH, it0.seq().len() == objs(*raw_struct), self.idx == was.idx + it0.index(), told_twice(was.post@, self.post@, was.idx as int, it0.index()),
}
@*/
/// a text among those added demands the size of a bundle
pub open spec fn asks(was: Seq<String>, now: Seq<String>, i: int, k: int) -> bool {
    &&& now.len() > was.len() + k
    &&& asks_size(now[was.len() + k]@, i)
}
/// n more texts, each about a slot of its own, and one after them
pub open spec fn told_then(was: Seq<String>, now: Seq<String>, from: int, n: int) -> bool {
    grown(was, now, n + 1) && forall|i: int| was.len() <= i < now.len() - 1 ==> about((#[trigger] now[i])@, from + i - was.len())
}
/// one text and n more, each about a slot of its own
pub open spec fn then_told(was: Seq<String>, now: Seq<String>, from: int, n: int) -> bool {
    grown(was, now, n + 1) && forall|i: int| was.len() + 1 <= i < now.len() ==> about((#[trigger] now[i])@, from + i - was.len() - 1)
}
/// one text and n pairs, the first of each about a slot of its own
pub open spec fn told_twice(was: Seq<String>, now: Seq<String>, from: int, n: int) -> bool {
    grown(was, now, 2 * n + 1) && forall|i: int| 0 <= i < n ==> about(now[was.len() + 1 + #[trigger] (2 * i)]@, from + i)
}

/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | fn Invoke::new |
sub visit_params_with_bundling(function, &mut me); => proof { assert(me.knows(Seq::empty())); } visit_params_with_bundling(function, &mut me);
spec { requires callable(*function), }
@*/
/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | fn Invoke::pre | meth_concat @*/
/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | fn Invoke::post | meth_concat @*/

/*@ idlc_codegen_rust/src/interface/functions/invoke.rs | fn emit | fmt,consts=idlc_codegen_rust/src/interface/variable_names.rs;idlc_codegen_rust/src/interface/mink_primitives.rs,marks=~$;$~=>~{;if~_counts~!=~;crate::object::pack_counts,meth_to_string
ret r
sub fn emit( => fn emit<A: AsText>(
sub iface_ident: &str => iface_ident: &A
spec {
    requires
        callable(*function),
        counts.input_buffers == buffers(function.params@, true), counts.output_buffers == buffers(function.params@, false),
        counts.input_objects == objects(function.params@, true), counts.output_objects == objects(function.params@, false),
    ensures
        holds(r@, case_r(*function)),
        holds(r@, pack_r(*function)),
}
@*/

}
}
// ---------------------------------------------------------------- the file of an interface
pub mod lists {
use super::*;
use vstd::prelude::*;
verus! {
/// of each of the first k members one of the texts put together has the part
pub proof fn none(v: Seq<String>, s: Seq<char>)
    requires v.len() == 0,
    ensures joined(v, s) == Seq::<char>::empty(), flat(v) == Seq::<char>::empty(),
{}
/// one text more put to the others
pub proof fn flat_next(v: Seq<String>, x: String, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires says(flat(v), w, ident, iface, m, k), 0 <= k < m.len(), holds(x@, part(w, ident, iface, m[k])),
    ensures says(flat(v.push(x)), w, ident, iface, m, k + 1),
{
    assert(v.push(x).drop_last() =~= v);
    says_before(flat(v), x@, w, ident, iface, m, k);
    holds_within(flat(v), x@, part(w, ident, iface, m[k]));
    says_next(flat(v) + x@, w, ident, iface, m, k);
}
pub proof fn joined_next(v: Seq<String>, x: String, s: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires says(joined(v, s), w, ident, iface, m, k), 0 <= k < m.len(), holds(x@, part(w, ident, iface, m[k])),
    ensures says(joined(v.push(x), s), w, ident, iface, m, k + 1),
{
    assert(v.push(x).drop_last() =~= v);
    if v.len() == 0 {
        assert(v.push(x)[0] == x);
        says_before(joined(v, s), x@, w, ident, iface, m, k);
        assert(joined(v, s) + x@ =~= x@);
        says_next(x@, w, ident, iface, m, k);
    } else {
        says_before(joined(v, s), s, w, ident, iface, m, k);
        says_before(joined(v, s) + s, x@, w, ident, iface, m, k);
        holds_within(joined(v, s) + s, x@, part(w, ident, iface, m[k]));
        says_next(joined(v, s) + s + x@, w, ident, iface, m, k);
    }
}
pub proof fn joined_kept(v: Seq<String>, x: String, s: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int)
    requires says_all(joined(v, s), w, ident, c, a, n),
    ensures says_all(joined(v.push(x), s), w, ident, c, a, n),
{
    assert(v.push(x).drop_last() =~= v);
    if v.len() == 0 {
        assert(v.push(x)[0] == x);
        all_before(joined(v, s), x@, w, ident, c, a, n);
        assert(joined(v, s) + x@ =~= x@);
    } else {
        all_before(joined(v, s), s, w, ident, c, a, n);
        all_before(joined(v, s) + s, x@, w, ident, c, a, n);
    }
}

/// the errors among the first k members are all on the list
#[verifier::opaque]
pub open spec fn lists(l: Seq<&Error>, m: Seq<InterfaceNode>, k: int) -> bool {
    forall|i: int| 0 <= i < k && (#[trigger] m[i]) is Error ==> exists|j: int| 0 <= j < l.len() && *(#[trigger] l[j]) == m[i]->Error_0
}
pub broadcast proof fn lists_none(l: Seq<&Error>, m: Seq<InterfaceNode>)
    ensures #[trigger] lists(l, m, 0),
{
    reveal(lists);
}
pub proof fn lists_next(was: Seq<&Error>, now: Seq<&Error>, m: Seq<InterfaceNode>, k: int)
    requires
        lists(was, m, k), 0 <= k < m.len(), now.len() >= was.len(), forall|j: int| 0 <= j < was.len() ==> was[j] == #[trigger] now[j],
        m[k] is Error ==> now.len() > was.len() && *now[was.len() as int] == m[k]->Error_0,
    ensures lists(now, m, k + 1),
{
    reveal(lists);
    assert forall|i: int| 0 <= i < k + 1 && (#[trigger] m[i]) is Error implies exists|j: int| 0 <= j < now.len() && *(#[trigger] now[j]) == m[i]->Error_0 by {
        if i < k {
            let j = choose|j: int| 0 <= j < was.len() && *(#[trigger] was[j]) == m[i]->Error_0;
            assert(*now[j] == m[i]->Error_0);
        } else { assert(*now[was.len() as int] == m[i]->Error_0); }
    }
}
/// the text has a constant for each of the first n errors of the list
#[verifier::opaque]
pub open spec fn defines_all(t: Seq<char>, l: Seq<&Error>, n: int) -> bool { forall|j: int| 0 <= j < n ==> holds(t, err_r(*(#[trigger] l[j]))) }
pub broadcast proof fn defines_none(t: Seq<char>, l: Seq<&Error>)
    ensures #[trigger] defines_all(t, l, 0),
{
    reveal(defines_all);
}
pub proof fn defines_next(t: Seq<char>, e: Seq<char>, l: Seq<&Error>, n: int)
    requires defines_all(t, l, n), holds(e, err_r(*l[n])),
    ensures defines_all(t + e, l, n + 1),
{
    reveal(defines_all);
    assert forall|j: int| 0 <= j < n + 1 implies holds(t + e, err_r(*(#[trigger] l[j]))) by { if j < n { holds_before(t, e, err_r(*l[j])); } else { holds_within(t, e, err_r(*l[j])); } }
}
pub proof fn defines_this(was: Seq<char>, now: Seq<char>, l: Seq<&Error>, n: int)
    requires defines_all(now, l, n), holds(now, err_r(*l[n])),
    ensures defines_all(now, l, n + 1),
{
    reveal(defines_all);
}
pub broadcast proof fn defines_before(t: Seq<char>, e: Seq<char>, l: Seq<&Error>, n: int)
    requires #[trigger] defines_all(t, l, n),
    ensures defines_all(#[trigger] (t + e), l, n),
{
    reveal(defines_all);
    assert forall|j: int| 0 <= j < n implies holds(t + e, err_r(*(#[trigger] l[j]))) by { holds_before(t, e, err_r(*l[j])); }
}
pub broadcast proof fn defines_within(x: Seq<char>, t: Seq<char>, l: Seq<&Error>, n: int)
    requires #[trigger] defines_all(t, l, n),
    ensures defines_all(#[trigger] (x + t), l, n),
{
    reveal(defines_all);
    assert forall|j: int| 0 <= j < n implies holds(x + t, err_r(*(#[trigger] l[j]))) by { holds_within(x, t, err_r(*l[j])); }
}
pub broadcast group all_listed { lists_none, defines_none, defines_before, defines_within }
pub open spec fn err_r(e: Error) -> Seq<char> {
    "pub const "@ + upper(e.ident.ident@) + ": Error = Error(unsafe { crate::object::Error::new_unchecked("@ + numeral(e.value as int) + ")"@
}
pub proof fn all_own_first(t: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>)
    requires c.len() > 0, says(t, w, ident, c[0].ident.ident@, c[0].nodes@, c[0].nodes@.len() as int),
    ensures says_all(t, w, ident, c, 0, 1),
{
    reveal(says_all);
}
pub proof fn all_errors(t: Seq<char>, l: Seq<&Error>, ident: Seq<char>, m: Seq<InterfaceNode>)
    requires lists(l, m, m.len() as int), defines_all(t, l, l.len() as int),
    ensures says(t, What::ErrorR, ident, ident, m, m.len() as int),
{
    reveal(lists); reveal(defines_all); reveal(says);
    assert forall|i: int| 0 <= i < m.len() implies holds(t, part(What::ErrorR, ident, ident, #[trigger] m[i])) by {
        if m[i] is Error {
            let j = choose|j: int| 0 <= j < l.len() && *(#[trigger] l[j]) == m[i]->Error_0;
            assert(holds(t, err_r(*l[j])));
        } else {
            holds_in(t, Seq::<char>::empty(), Seq::empty());
            assert(t + Seq::<char>::empty() + Seq::<char>::empty() =~= t);
        }
    }
}
}
}
pub mod constants_rust {
use super::*;
use super::lists::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_said, all_listed};

pub trait Cased { fn to_case_(&self, c: u8) -> String; }
impl Cased for String {
    #[verifier::external_body]
    fn to_case_(&self, c: u8) -> String { unimplemented!() }
}
pub trait Owned { spec fn whole(&self) -> Seq<char>; fn to_owned_(&self) -> (r: String) ensures r@ == self.whole(); }
impl Owned for str {
    open spec fn whole(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_owned_(&self) -> (r: String) { unimplemented!() }
}
/*@ idlc_codegen_rust/src/interface/error.rs | fn emit | fmt,marks=pub~const~;:~Error~=~Error(unsafe~{~crate::object::Error::new_unchecked(;$),meth_to_string,meth_push_str,meth_to_uppercase,meth_to_case,meth_to_owned,add_assign
ret r
sub convert_case::Case::UpperCamel => 0
sub prologue.to_owned_() + &defines + &debug_impl => cat(cat(prologue.to_owned_(), defines), debug_impl)
spec { ensures defines_all(r@, errors@, errors@.len() as int), }
loop 0 {
    invariant it0.seq().len() == errors@.len(), forall|k: int| 0 <= k < errors@.len() ==> *(#[trigger] it0.seq()[k]) == errors@[k], defines_all(defines@, errors@, it0.index()),
}
body 0 { let ghost k = it0.index(); let ghost was = defines@; proof { assert(*it0.seq()[k] == errors@[k]); } }
end 0 { proof { defines_this(was, defines@, errors@, k); } }
@*/
}
}
pub mod whole_rust {
use super::*;
use super::lists::*;
use vstd::prelude::*;
verus! {
broadcast use {all_said, all_listed};

pub mod error { pub use super::super::constants_rust::emit; }
#[verifier::external_body]
pub fn emit_const(c: &Const) -> String { unimplemented!() }
pub mod variable_names { pub mod invoke {
    use super::super::super::*;
    pub struct Name { pub n: u8 }
    impl AsText for Name {
        uninterp spec fn as_text(&self) -> Seq<char>;
        #[verifier::external_body]
        fn to_string_(&self) -> (r: String) { unimplemented!() }
    }
    pub const HANDLE: Name = Name { n: 0 };
    pub const OP_ID: Name = Name { n: 1 };
    pub const ARGS: Name = Name { n: 2 };
    pub const COUNTS: Name = Name { n: 3 };
    pub const CONTEXT: Name = Name { n: 4 };
    pub const MARKER: Name = Name { n: 5 };
} }
/// what formatting makes of a text
pub uninterp spec fn pretty(t: Seq<char>) -> Seq<char>;
pub mod syn {
    use vstd::prelude::*;
    pub struct File { pub text: String }
    #[verifier::external_body]
    pub fn parse_file(t: &String) -> (r: Result<File, u8>)
        ensures r is Ok, r->Ok_0.text@ == t@,
    { unimplemented!() }
}
pub mod prettyplease {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn unparse(f: &super::syn::File) -> (r: String)
        ensures r@ == super::pretty(f.text@),
    { unimplemented!() }
}
/// the text before formatting has what has to be said of the members
pub open spec fn in_file(t: Seq<char>, i: Interface) -> bool {
    &&& says(t, What::ErrorR, i.ident.ident@, i.ident.ident@, i.nodes@, i.nodes@.len() as int)
    &&& says(t, What::CallR, i.ident.ident@, i.ident.ident@, i.nodes@, i.nodes@.len() as int)
    &&& says_all(t, What::CaseR, i.ident.ident@, lineage(i), 0, lineage(i).len() as int)
    &&& says_all(t, What::PackR, i.ident.ident@, lineage(i), 0, lineage(i).len() as int)
}

/*@ idlc_codegen_rust/src/interface/mod.rs | fn emit | fmt,for_each,for_filter_map,for_own=interface,consts=idlc_codegen_rust/src/interface/mink_primitives.rs,meth_push_str,meth_to_string,meth_concat,meth_join,meth_unwrap_or_default,opt_map,opt_map_or,const_paths
ret r
sub let errors = error::emit(&errors); => let ghost verif_listed = errors@; let errors = error::emit(&errors);
spec {
    requires all_callable(lineage(*interface)),
    ensures exists|t: Seq<char>| #[trigger] in_file(t, *interface) && r@ == pretty(t),
}
loop 0 {
    invariant
        all_callable(lineage(*interface)), ident.ident@ == interface.ident.ident@, lineage(*interface)[0] == *interface,
        it0.seq().len() == interface.nodes@.len(), forall|k: int| 0 <= k < interface.nodes@.len() ==> *(#[trigger] it0.seq()[k]) == interface.nodes@[k],
        lists(errors@, interface.nodes@, it0.index()),
        says(flat(implementations@), What::CallR, ident.ident@, ident.ident@, interface.nodes@, it0.index()),
        says(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, ident.ident@, interface.nodes@, it0.index()),
        says(joined(invoke_arms@, ","@), What::PackR, ident.ident@, ident.ident@, interface.nodes@, it0.index()),
}
body 0 {
    let ghost k = it0.index(); let ghost e0 = errors@; let ghost arms = invoke_arms@; let ghost impls = implementations@;
    proof { assert(*it0.seq()[k] == interface.nodes@[k]); assert(lineage(*interface)[0].nodes@[k] == interface.nodes@[k]); }
}
end 0 {
    proof {
        lists_next(e0, errors@, interface.nodes@, k);
        if interface.nodes@[k] is Function {
            assert(invoke_arms@ == arms.push(invoke_arms@.last()) && implementations@ == impls.push(implementations@.last()));
            flat_next(impls, implementations@.last(), What::CallR, ident.ident@, ident.ident@, interface.nodes@, k);
            joined_next(arms, invoke_arms@.last(), ","@, What::CaseR, ident.ident@, ident.ident@, interface.nodes@, k);
            joined_next(arms, invoke_arms@.last(), ","@, What::PackR, ident.ident@, ident.ident@, interface.nodes@, k);
        } else {
            says_next(flat(implementations@), What::CallR, ident.ident@, ident.ident@, interface.nodes@, k);
            says_next(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, ident.ident@, interface.nodes@, k);
            says_next(joined(invoke_arms@, ","@), What::PackR, ident.ident@, ident.ident@, interface.nodes@, k);
        }
    }
}
after 0 {
    proof {
        all_own_first(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, lineage(*interface));
        all_own_first(joined(invoke_arms@, ","@), What::PackR, ident.ident@, lineage(*interface));
    }
}
loop 1 {
    invariant
        all_callable(lineage(*interface)), ident.ident@ == interface.ident.ident@,
        verif_iter.rest() == lineage(*interface).skip(lineage(*interface).len() - verif_iter.rest().len()), 0 <= verif_iter.rest().len() < lineage(*interface).len(),
        says_all(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, lineage(*interface), 0, lineage(*interface).len() - verif_iter.rest().len()),
        says_all(joined(invoke_arms@, ","@), What::PackR, ident.ident@, lineage(*interface), 0, lineage(*interface).len() - verif_iter.rest().len()),
    ensures
        says_all(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(joined(invoke_arms@, ","@), What::PackR, ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
    decreases verif_iter.rest().len()
}
body 1 { let ghost c = lineage(*interface); let ghost n = c.len() - verif_iter.rest().len(); proof { if n < c.len() { assert(c.skip(n)[0] == c[n]); assert(c.skip(n).skip(1) =~= c.skip(n + 1)); } } }
loop 2 {
    invariant
        all_callable(c), 0 <= n < c.len(), *iface == c[n], ident.ident@ == interface.ident.ident@,
        it2.seq().len() == iface.nodes@.len(), forall|k: int| 0 <= k < iface.nodes@.len() ==> *(#[trigger] it2.seq()[k]) == iface.nodes@[k],
        says_all(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, c, 0, n), says_all(joined(invoke_arms@, ","@), What::PackR, ident.ident@, c, 0, n),
        says(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, iface.ident.ident@, iface.nodes@, it2.index()),
        says(joined(invoke_arms@, ","@), What::PackR, ident.ident@, iface.ident.ident@, iface.nodes@, it2.index()),
}
body 2 { let ghost arms = invoke_arms@; let ghost k = it2.index(); proof { assert(*it2.seq()[k] == iface.nodes@[k]); assert(c[n].nodes@[k] == iface.nodes@[k]); } }
end 2 {
    proof {
        if iface.nodes@[k] is Function {
            assert(invoke_arms@ == arms.push(invoke_arms@.last()));
            joined_next(arms, invoke_arms@.last(), ","@, What::CaseR, ident.ident@, iface.ident.ident@, iface.nodes@, k);
            joined_next(arms, invoke_arms@.last(), ","@, What::PackR, ident.ident@, iface.ident.ident@, iface.nodes@, k);
            joined_kept(arms, invoke_arms@.last(), ","@, What::CaseR, ident.ident@, c, 0, n);
            joined_kept(arms, invoke_arms@.last(), ","@, What::PackR, ident.ident@, c, 0, n);
        } else {
            says_next(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, iface.ident.ident@, iface.nodes@, k);
            says_next(joined(invoke_arms@, ","@), What::PackR, ident.ident@, iface.ident.ident@, iface.nodes@, k);
        }
    }
}
after 2 {
    proof { all_next(joined(invoke_arms@, ","@), What::CaseR, ident.ident@, c, 0, n); all_next(joined(invoke_arms@, ","@), What::PackR, ident.ident@, c, 0, n); }
}
tail {
    proof {
        all_errors(errors@, verif_listed, ident.ident@, interface.nodes@);
        assert(in_file(output@, *interface));
    }
}
@*/

}
}
fn main() {}
