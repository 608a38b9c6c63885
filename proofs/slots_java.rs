//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
use std::cmp::Ordering;
//@include mirtypes
//@include wire_spec
//@contracts structs counts
//@include bundle_spec
//@contracts bundle_new bundle
//@include order_spec
//@contracts order_new order
//@include slots_spec
//@include slots_text
//@contracts object_paths objects
//@include counter_spec
//@contracts counter_new counts
//@include emission_spec
verus! {

global size_of usize == 8;

pub use serialization::TransportBuffer;
pub mod serialization {
    use super::*;
    pub struct TransportBuffer { pub definition: String, pub size: usize }
    #[verifier::external_body]
    pub struct PackedPrimitives<'a> { x: std::marker::PhantomData<&'a u8> }
    impl<'a> PackedPrimitives<'a> {
        #[verifier::external_body]
        pub fn new(p: &'a super::PackedPrimitives) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn bi_definition(&self, is_invoke: bool) -> Option<TransportBuffer> { unimplemented!() }
        #[verifier::external_body]
        pub fn bo_definition(&self, is_invoke: bool) -> Option<TransportBuffer> { unimplemented!() }
        #[verifier::external_body]
        pub fn pre_bo_assignments(&self) -> String { unimplemented!() }
    }
}
pub mod signature {
    use super::*;
    #[verifier::external_body]
    pub struct Signature { x: u8 }
    #[verifier::external_body]
    pub struct Names { x: u8 }
    impl Signature {
        #[verifier::external_body]
        pub fn new(f: &Function) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn params(&self) -> Names { unimplemented!() }
        #[verifier::external_body]
        pub fn return_idents(&self) -> Names { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn iter_to_string(n: Names) -> String { unimplemented!() }
}
pub mod functions {
    pub mod signature { pub use super::super::signature::*; }
    pub mod implementation { pub use super::super::proxy::emit; }
    pub mod invoke { pub use super::super::skeleton::emit; }
    pub mod traits {
        use super::super::*;
        #[verifier::external_body]
        pub fn emit(function: &Function, documentation: &Documentation, signature: &signature::Signature) -> String { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn change_primitive(p: Primitive) -> &'static str { unimplemented!() }
#[verifier::external_body]
pub fn change_const(c: &Const) -> (&'static str, String) { unimplemented!() }
#[verifier::external_body]
pub fn capitalize_first_letter(s: &str) -> String { unimplemented!() }
#[verifier::external_body]
pub fn put_struct<A: ?Sized, B: ?Sized>(s: &StructInner, buffer: &A, expr: &B) -> String { unimplemented!() }
#[verifier::external_body]
pub fn get_struct<A: ?Sized, B: ?Sized>(s: &StructInner, buffer: &A, expr: &B) -> String { unimplemented!() }

// ---------------------------------------------------------------- the arrays of a call

/// how many arguments of a section
pub open spec fn cnt(k: Seq<Slot>, s: Slot) -> nat
    decreases k.len()
{
    if k.len() == 0 { 0 } else { cnt(k.drop_last(), s) + (if k.last() == s { 1nat } else { 0nat }) }
}
pub broadcast proof fn cnt_one(k: Seq<Slot>, x: Slot, s: Slot)
    ensures #[trigger] cnt(k + seq![x], s) == cnt(k, s) + (if x == s { 1nat } else { 0nat }),
{
    assert((k + seq![x]).drop_last() =~= k);
}
pub broadcast proof fn cnt_all(k: Seq<Slot>, x: Slot, n: nat, s: Slot)
    ensures #[trigger] cnt(k + all(x, n), s) == cnt(k, s) + (if x == s { n } else { 0 }),
    decreases n
{
    if n == 0 { assert(k + all(x, n) =~= k); } else {
        cnt_all(k, x, (n - 1) as nat, s);
        assert((k + all(x, n)).drop_last() =~= k + all(x, (n - 1) as nat));
        assert((k + all(x, n)).last() == x);
    }
}
pub broadcast group counting { cnt_one, cnt_all }

pub proof fn cnt_wire(p: Seq<Param>)
    ensures
        cnt(Seq::empty() + wire_kinds(p), Slot::Bi) == buffers(p, true), cnt(Seq::empty() + wire_kinds(p), Slot::Bo) == buffers(p, false),
        cnt(Seq::empty() + wire_kinds(p), Slot::Oi) == objects(p, true), cnt(Seq::empty() + wire_kinds(p), Slot::Oo) == objects(p, false),
{
    assert(Seq::<Slot>::empty() + wire_kinds(p) =~= Seq::<Slot>::empty() + all(Slot::Bi, buffers(p, true)) + all(Slot::Bo, buffers(p, false)) + all(Slot::Oi, objects(p, true)) + all(Slot::Oo, objects(p, false)));
    let k1 = Seq::<Slot>::empty() + all(Slot::Bi, buffers(p, true));
    let k2 = k1 + all(Slot::Bo, buffers(p, false));
    let k3 = k2 + all(Slot::Oi, objects(p, true));
    assert forall|s: Slot| true implies #[trigger] cnt(k3 + all(Slot::Oo, objects(p, false)), s) == (match s { Slot::Bi => buffers(p, true), Slot::Bo => buffers(p, false), Slot::Oi => objects(p, true), Slot::Oo => objects(p, false) }) by {
        cnt_all(Seq::empty(), Slot::Bi, buffers(p, true), s);
        cnt_all(k1, Slot::Bo, buffers(p, false), s);
        cnt_all(k2, Slot::Oi, objects(p, true), s);
        cnt_all(k3, Slot::Oo, objects(p, false), s);
    }
}

/// one more text or several, the last of which is about the i-th element of an array
pub open spec fn kept(was: Seq<String>, now: Seq<String>) -> bool {
    now.len() >= was.len() && forall|i: int| #![trigger now[i]] #![trigger was[i]] 0 <= i < was.len() ==> now[i] == was[i]
}
pub open spec fn last_has(was: Seq<String>, now: Seq<String>, a: Seq<char>, i: int, b: Seq<char>) -> bool {
    now.len() > was.len() && kept(was, now) && holds(now.last()@, a + numeral(i) + b)
}
/// reads or writes the i-th element
pub open spec fn at(was: Seq<String>, now: Seq<String>, a: Seq<char>, i: int) -> bool { last_has(was, now, a, i, "]"@) }
/// writes it
pub open spec fn sets(was: Seq<String>, now: Seq<String>, a: Seq<char>, i: int) -> bool { last_has(was, now, a, i, "] = "@) }
/// a range of elements from the i-th on
pub open spec fn from(was: Seq<String>, now: Seq<String>, a: Seq<char>, i: int) -> bool { last_has(was, now, a, i, "+_i]"@) }
pub open spec fn sized(t: Seq<char>, a: Seq<char>, n: int, b: Seq<char>) -> bool { holds(t, a + numeral(n) + b) }
pub open spec fn demands(t: Seq<char>, a: Seq<char>, i: int, b: Seq<char>, n: int) -> bool { holds(t, a + numeral(i) + b + numeral(n) + ") {"@) }
/// a new array of n elements
pub open spec fn news(t: Seq<char>, a: Seq<char>, n: nat) -> bool { holds(t, a + numeral(n as int) + "]"@) }
pub broadcast proof fn holds_seven(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>)
    ensures #![trigger (a + b + c + d + e + f + g)] holds(a + b + c + d + e + f + g, a + b + c + d + e + f + g),
{ holds_self(a + b + c + d + e + f + g); }
pub broadcast proof fn holds_a_five(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>)
    ensures #![trigger (a + b + c + d + e)] holds(a + b + c + d + e, a + b + c + d + e),
{ holds_self(a + b + c + d + e); }
pub broadcast proof fn holds_call(x: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, h: Seq<char>, i: Seq<char>, j: Seq<char>, k: Seq<char>, l: Seq<char>, m: Seq<char>, n: Seq<char>, o: Seq<char>)
    ensures #![trigger (x + a + b + c + d + e + f + g + h + i + j + k + l + m + n + o)] holds(x + a + b + c + d + e + f + g + h + i + j + k + l + m + n + o, a + b + c + d + e + f + g + h + i + j + k + l + m + n + o),
{
    holds_in(x, a + b + c + d + e + f + g + h + i + j + k + l + m + n + o, Seq::empty());
    assert(x + a + b + c + d + e + f + g + h + i + j + k + l + m + n + o =~= x + (a + b + c + d + e + f + g + h + i + j + k + l + m + n + o) + Seq::<char>::empty());
}
pub broadcast group longer { holds_seven, holds_a_five }
pub trait AsRefOpt<T> { fn as_ref_(&self) -> Option<&T>; }
impl<T> AsRefOpt<T> for Option<T> {
    fn as_ref_(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } }
}
impl AsRefStr for Ident {
    open spec fn own(&self) -> Seq<char> { self.ident@ }
    #[verifier::external_body]
    fn as_ref_(&self) -> (r: &str) { self.ident.as_ref() }
}
pub trait Replace { fn replace_(&self, c: char, s: &str) -> String; }
impl Replace for String {
    #[verifier::external_body]
    fn replace_(&self, c: char, s: &str) -> String { unimplemented!() }
}
pub broadcast proof fn holds_fives(x: Seq<char>, p: Seq<char>, d: Seq<char>, q: Seq<char>, r: Seq<char>, s: Seq<char>)
    ensures holds(#[trigger] (x + p + d + q + r + s), p + d + q + r + s),
{
    holds_in(x, p + d + q + r + s, Seq::empty());
    assert(x + p + d + q + r + s =~= x + (p + d + q + r + s) + Seq::<char>::empty());
}

}
pub mod proxy {
use super::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_said, counting};

/*@ idlc_codegen_java/src/interface/functions/implementation.rs | struct Implementation | @*/
impl Implementation {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.bi_idx == 0, r.bo_idx == 0, r.bo_sz_idx == 0, r.io_idx == 0, r.oo_idx == 0, r.initializations@.len() == 0, r.post_call@.len() == 0, !r.obj_arr_in, !r.obj_arr_out,
    { unimplemented!() }
}

/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn Implementation::bi_idx |
ret r
spec {
    requires old(self).bi_idx < usize::MAX,
    ensures r == old(self).bi_idx, *final(self) == (Implementation { bi_idx: final(self).bi_idx, ..*old(self) }), final(self).bi_idx == old(self).bi_idx + 1,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn Implementation::bo_idx |
ret r
spec {
    requires old(self).bo_idx < usize::MAX,
    ensures r == old(self).bo_idx, *final(self) == (Implementation { bo_idx: final(self).bo_idx, ..*old(self) }), final(self).bo_idx == old(self).bo_idx + 1,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn Implementation::bo_sz_idx |
ret r
spec {
    requires old(self).bo_sz_idx < usize::MAX,
    ensures r == old(self).bo_sz_idx, *final(self) == (Implementation { bo_sz_idx: final(self).bo_sz_idx, ..*old(self) }), final(self).bo_sz_idx == old(self).bo_sz_idx + 1,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn Implementation::io_idx |
ret r
spec {
    requires old(self).io_idx < usize::MAX,
    ensures r == old(self).io_idx, *final(self) == (Implementation { io_idx: final(self).io_idx, ..*old(self) }), final(self).io_idx == old(self).io_idx + 1,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn Implementation::oo_idx |
ret r
spec {
    requires old(self).oo_idx < usize::MAX,
    ensures r == old(self).oo_idx, *final(self) == (Implementation { oo_idx: final(self).oo_idx, ..*old(self) }), final(self).oo_idx == old(self).oo_idx + 1,
}
@*/

/*@ idlc_codegen_java/src/interface/functions/implementation.rs | impl ParameterVisitor Implementation | inherit=idlc_codegen/src/functions.rs#ParameterVisitor,keep_trait,mods=serialization,fmt,consts=idlc_codegen_java/src/interface/mink_primitives.rs,meth_to_string,meth_is_empty,gives_up,usize_from,marks=bi[;bo[;oi[;oo[;boSizes[;];]~=~;+_i];_i<;allocate(;$%;);;
sub impl ParameterVisitor for Implementation { => impl ParameterVisitor for Implementation { open spec fn inner() -> bool { false } open spec fn handled(&self) -> nat { if self.bo_idx == self.bo_sz_idx && (self.obj_arr_in ==> self.io_idx > 0) && (self.obj_arr_out ==> self.oo_idx > 0) { (self.bi_idx + self.bo_idx + self.io_idx + self.oo_idx) as nat } else { ENOUGH + 1 } } open spec fn knows(&self, k: Seq<Slot>) -> bool { self.bi_idx == cnt(k, Slot::Bi) && self.bo_idx == cnt(k, Slot::Bo) && self.bo_sz_idx == cnt(k, Slot::Bo) && self.io_idx == cnt(k, Slot::Oi) && self.oo_idx == cnt(k, Slot::Oo) }
in visit_input_primitive_buffer spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "bi["@, old(self).bi_idx as int),
}
in visit_output_primitive_buffer spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "boSizes["@, old(self).bo_sz_idx as int),
        at(old(self).post_call@, final(self).post_call@, "bo["@, old(self).bo_idx as int),
}
in visit_input_untyped_buffer spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "bi["@, old(self).bi_idx as int),
}
in visit_output_untyped_buffer spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "boSizes["@, old(self).bo_sz_idx as int),
        at(old(self).post_call@, final(self).post_call@, "bo["@, old(self).bo_idx as int),
}
in visit_input_struct_buffer spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "bi["@, old(self).bi_idx as int),
}
in visit_output_struct_buffer spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "boSizes["@, old(self).bo_sz_idx as int),
        at(old(self).post_call@, final(self).post_call@, "bo["@, old(self).bo_idx as int),
}
in visit_input_primitive spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "bi["@, old(self).bi_idx as int),
        sized(final(self).initializations@.last()@, "allocate("@, psz(ty) as int, ")"@),
}
in visit_output_primitive spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "boSizes["@, old(self).bo_sz_idx as int),
        sized(final(self).initializations@.last()@, "] = "@, psz(ty) as int, ";"@),
        at(old(self).post_call@, final(self).post_call@, "bo["@, old(self).bo_idx as int),
}
in visit_input_bundled spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "bi["@, old(self).bi_idx as int),
}
in visit_output_bundled spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "boSizes["@, old(self).bo_sz_idx as int),
        at(old(self).post_call@, final(self).post_call@, "bo["@, old(self).bo_idx as int),
}
in visit_input_big_struct spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "bi["@, old(self).bi_idx as int),
        sized(final(self).initializations@.last()@, "allocate("@, size_of_struct(*ty) as int, ")"@),
}
in visit_output_big_struct spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "boSizes["@, old(self).bo_sz_idx as int),
        sized(final(self).initializations@.last()@, "] = "@, size_of_struct(*ty) as int, ";"@),
        at(old(self).post_call@, final(self).post_call@, "bo["@, old(self).bo_idx as int),
}
in visit_input_small_struct spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "bi["@, old(self).bi_idx as int),
}
in visit_output_small_struct spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "boSizes["@, old(self).bo_sz_idx as int),
        at(old(self).post_call@, final(self).post_call@, "bo["@, old(self).bo_idx as int),
}
in visit_input_object spec {
    ensures
        sets(old(self).initializations@, final(self).initializations@, "oi["@, old(self).io_idx as int),
}
in visit_input_object_array spec {
    ensures
        from(old(self).initializations@, final(self).initializations@, "oi["@, old(self).io_idx as int), sized(final(self).initializations@.last()@, "_i<"@, cnt@ as int, ";"@),
}
in visit_output_object spec {
    ensures
        at(old(self).post_call@, final(self).post_call@, "oo["@, old(self).oo_idx as int),
}
in visit_output_object_array spec {
    ensures
        from(old(self).post_call@, final(self).post_call@, "oo["@, old(self).oo_idx as int), sized(final(self).post_call@.last()@, "_i<"@, cnt@ as int, ";"@),
}
in visit_input_struct_objects start { proof { assert forall|k: Seq<Slot>| #[trigger] self.knows(k) implies k + all(Slot::Oi, 0) == k by { assert(k + all(Slot::Oi, 0) =~= k); } } }
in visit_output_struct_objects start { proof { assert forall|k: Seq<Slot>| #[trigger] self.knows(k) implies k + all(Slot::Oo, 0) == k by { assert(k + all(Slot::Oo, 0) =~= k); } } }
@*/

/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn Implementation::new |
ret r
sub visit_params_with_bundling(function, &mut me); => proof { assert(me.knows(Seq::empty())); cnt_wire(function.params@); } visit_params_with_bundling(function, &mut me);
spec {
    requires callable(*function), no_inner(function.params@),
    ensures
        r.bi_idx == buffers(function.params@, true), r.bo_idx == buffers(function.params@, false), r.bo_sz_idx == buffers(function.params@, false),
        r.io_idx == objects(function.params@, true), r.oo_idx == objects(function.params@, false),
        r.obj_arr_in ==> r.io_idx > 0, r.obj_arr_out ==> r.oo_idx > 0,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn Implementation::initializations | meth_concat @*/
/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn Implementation::post_call_assignments | meth_concat @*/

/*@ idlc_codegen_java/src/interface/functions/implementation.rs | fn emit | fmt,mods=signature,consts=idlc_codegen_java/src/interface/mink_primitives.rs,marks=byte[][]~bi~=~new~byte[;byte[][]~bo~=~new~byte[;int[]~boSizes~=~new~int[;IMinkObject[]~oi~=~new~IMinkObject[;IMinkObject[]~oo~=~new~IMinkObject[;minkObject.invoke(;$];$)%,meth_to_string,meth_is_empty,meth_replace,meth_push_str
ret r
sub fn emit( => fn emit<A: AsText>(
sub iface_ident: &str => iface_ident: &A
sub documentation: &str => documentation: &Documentation
spec {
    requires
        callable(*function), no_inner(function.params@),
        counts.input_buffers == buffers(function.params@, true), counts.output_buffers == buffers(function.params@, false),
        counts.input_objects == objects(function.params@, true), counts.output_objects == objects(function.params@, false),
    ensures
        holds(r@, call_j(iface_ident.as_text(), *function)),
        buffers(function.params@, true) > 0 ==> news(r@, "byte[][] bi = new byte["@, buffers(function.params@, true)),
        buffers(function.params@, false) > 0 ==> news(r@, "byte[][] bo = new byte["@, buffers(function.params@, false)),
        buffers(function.params@, false) > 0 ==> news(r@, "int[] boSizes = new int["@, buffers(function.params@, false)),
        objects(function.params@, true) > 0 ==> news(r@, "IMinkObject[] oi = new IMinkObject["@, objects(function.params@, true)),
        objects(function.params@, false) > 0 ==> news(r@, "IMinkObject[] oo = new IMinkObject["@, objects(function.params@, false)),
}
start { broadcast use holds_call; }
@*/

}
}

// ---------------------------------------------------------------- skeletons
pub mod skeleton {
use super::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_said, counting};

/*@ idlc_codegen_java/src/interface/functions/invoke.rs | struct Invoke | @*/
impl Invoke {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.bi_idx == 0, r.bo_idx == 0, r.bo_sz_idx == 0, r.io_idx == 0, r.oo_idx == 0, r.pre@.len() == 0, r.post@.len() == 0,
    { unimplemented!() }
}

/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn Invoke::bi_idx |
ret r
spec {
    requires old(self).bi_idx < usize::MAX,
    ensures r == old(self).bi_idx, *final(self) == (Invoke { bi_idx: final(self).bi_idx, ..*old(self) }), final(self).bi_idx == old(self).bi_idx + 1,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn Invoke::bo_idx |
ret r
spec {
    requires old(self).bo_idx < usize::MAX,
    ensures r == old(self).bo_idx, *final(self) == (Invoke { bo_idx: final(self).bo_idx, ..*old(self) }), final(self).bo_idx == old(self).bo_idx + 1,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn Invoke::bo_sz_idx |
ret r
spec {
    requires old(self).bo_sz_idx < usize::MAX,
    ensures r == old(self).bo_sz_idx, *final(self) == (Invoke { bo_sz_idx: final(self).bo_sz_idx, ..*old(self) }), final(self).bo_sz_idx == old(self).bo_sz_idx + 1,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn Invoke::io_idx |
ret r
spec {
    requires old(self).io_idx < usize::MAX,
    ensures r == old(self).io_idx, *final(self) == (Invoke { io_idx: final(self).io_idx, ..*old(self) }), final(self).io_idx == old(self).io_idx + 1,
}
@*/
/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn Invoke::oo_idx |
ret r
spec {
    requires old(self).oo_idx < usize::MAX,
    ensures r == old(self).oo_idx, *final(self) == (Invoke { oo_idx: final(self).oo_idx, ..*old(self) }), final(self).oo_idx == old(self).oo_idx + 1,
}
@*/

/*@ idlc_codegen_java/src/interface/functions/invoke.rs | impl ParameterVisitor Invoke | inherit=idlc_codegen/src/functions.rs#ParameterVisitor,keep_trait,mods=serialization,fmt,consts=idlc_codegen_java/src/interface/mink_primitives.rs,meth_to_string,meth_is_empty,gives_up,usize_from,marks=bi[;bo[;oi[;oo[;boSizes[;if~(bi[;if~(boSizes[;];].length~!=~;]~!=~;)~{;]~=~;+_i];_i<;$%
sub impl ParameterVisitor for Invoke { => impl ParameterVisitor for Invoke { open spec fn inner() -> bool { false } open spec fn handled(&self) -> nat { if self.bo_idx == self.bo_sz_idx { (self.bi_idx + self.bo_idx + self.io_idx + self.oo_idx) as nat } else { ENOUGH + 1 } } open spec fn knows(&self, k: Seq<Slot>) -> bool { self.bi_idx == cnt(k, Slot::Bi) && self.bo_idx == cnt(k, Slot::Bo) && self.bo_sz_idx == cnt(k, Slot::Bo) && self.io_idx == cnt(k, Slot::Oi) && self.oo_idx == cnt(k, Slot::Oo) }
in visit_input_primitive_buffer spec {
    ensures
        at(old(self).pre@, final(self).pre@, "bi["@, old(self).bi_idx as int),
}
in visit_output_primitive_buffer spec {
    ensures
        at(old(self).pre@, final(self).pre@, "boSizes["@, old(self).bo_sz_idx as int),
        sets(old(self).post@, final(self).post@, "bo["@, old(self).bo_idx as int),
}
in visit_input_untyped_buffer spec {
    ensures
        at(old(self).pre@, final(self).pre@, "bi["@, old(self).bi_idx as int),
}
in visit_output_untyped_buffer spec {
    ensures
        at(old(self).pre@, final(self).pre@, "boSizes["@, old(self).bo_sz_idx as int),
        at(old(self).post@, final(self).post@, "bo["@, old(self).bo_idx as int),
}
in visit_input_struct_buffer spec {
    ensures
        at(old(self).pre@, final(self).pre@, "bi["@, old(self).bi_idx as int),
}
in visit_output_struct_buffer spec {
    ensures
        at(old(self).pre@, final(self).pre@, "boSizes["@, old(self).bo_sz_idx as int),
        sets(old(self).post@, final(self).post@, "bo["@, old(self).bo_idx as int),
}
in visit_input_primitive spec {
    ensures
        at(old(self).pre@, final(self).pre@, "bi["@, old(self).bi_idx as int),
        demands(final(self).pre@.last()@, "if (bi["@, old(self).bi_idx as int, "].length != "@, psz(ty) as int),
}
in visit_output_primitive spec {
    ensures
        kept(old(self).pre@, final(self).pre@),
        demands(final(self).pre@.last()@, "if (boSizes["@, old(self).bo_sz_idx as int, "] != "@, psz(ty) as int),
        sets(old(self).post@, final(self).post@, "bo["@, old(self).bo_idx as int),
}
in visit_input_bundled spec {
    ensures
        at(old(self).pre@, final(self).pre@, "bi["@, old(self).bi_idx as int),
}
in visit_output_bundled spec {
    ensures
        kept(old(self).pre@, final(self).pre@),
        sets(old(self).post@, final(self).post@, "bo["@, old(self).bo_idx as int),
}
in visit_input_big_struct spec {
    ensures
        at(old(self).pre@, final(self).pre@, "bi["@, old(self).bi_idx as int),
        demands(final(self).pre@.last()@, "if (bi["@, old(self).bi_idx as int, "].length != "@, size_of_struct(*ty) as int),
}
in visit_output_big_struct spec {
    ensures
        kept(old(self).pre@, final(self).pre@),
        demands(final(self).pre@.last()@, "if (boSizes["@, old(self).bo_sz_idx as int, "] != "@, size_of_struct(*ty) as int),
        sets(old(self).post@, final(self).post@, "bo["@, old(self).bo_idx as int),
}
in visit_input_small_struct spec {
    ensures
        at(old(self).pre@, final(self).pre@, "bi["@, old(self).bi_idx as int),
}
in visit_output_small_struct spec {
    ensures
        kept(old(self).pre@, final(self).pre@),
        sets(old(self).post@, final(self).post@, "bo["@, old(self).bo_idx as int),
}
in visit_input_object spec {
    ensures
        at(old(self).pre@, final(self).pre@, "oi["@, old(self).io_idx as int),
}
in visit_input_object_array spec {
    ensures
        from(old(self).pre@, final(self).pre@, "oi["@, old(self).io_idx as int), sized(final(self).pre@.last()@, "_i<"@, cnt@ as int, ";"@),
}
in visit_output_object spec {
    ensures
        sets(old(self).post@, final(self).post@, "oo["@, old(self).oo_idx as int),
}
in visit_output_object_array spec {
    ensures
        from(old(self).post@, final(self).post@, "oo["@, old(self).oo_idx as int), sized(final(self).post@.last()@, "_i<"@, cnt@ as int, ";"@),
}
in visit_input_struct_objects start { proof { assert forall|k: Seq<Slot>| #[trigger] self.knows(k) implies k + all(Slot::Oi, 0) == k by { assert(k + all(Slot::Oi, 0) =~= k); } } }
in visit_output_struct_objects start { proof { assert forall|k: Seq<Slot>| #[trigger] self.knows(k) implies k + all(Slot::Oo, 0) == k by { assert(k + all(Slot::Oo, 0) =~= k); } } }
@*/

/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn Invoke::new |
ret r
sub visit_params_with_bundling(function, &mut me); => proof { assert(me.knows(Seq::empty())); cnt_wire(function.params@); } visit_params_with_bundling(function, &mut me);
spec {
    requires callable(*function), no_inner(function.params@),
    ensures
        r.bi_idx == buffers(function.params@, true), r.bo_idx == buffers(function.params@, false), r.bo_sz_idx == buffers(function.params@, false),
        r.io_idx == objects(function.params@, true), r.oo_idx == objects(function.params@, false),
}
@*/
/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn Invoke::pre | meth_concat @*/
/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn Invoke::post | meth_concat @*/

/*@ idlc_codegen_java/src/interface/functions/invoke.rs | fn emit | fmt,mods=signature,consts=idlc_codegen_java/src/interface/mink_primitives.rs,marks=case~;:~{,meth_to_string,meth_push_str
ret r
sub fn emit( => fn emit<A: AsText, B: AsText>(
sub current_iface_ident: &str => current_iface_ident: &A
sub iface_ident: &str => iface_ident: &B
spec {
    requires callable(*function), no_inner(function.params@),
    ensures holds(r@, case_c(iface_ident.as_text(), *function)),
}
@*/

}
}
// ---------------------------------------------------------------- the file of an interface
pub mod file {
use super::*;
use vstd::prelude::*;
verus! {
broadcast use {text, all_said, longer};

pub open spec fn all_plain(c: Seq<Interface>) -> bool {
    forall|j: int, k: int| 0 <= j < c.len() && 0 <= k < c[j].nodes@.len() && (#[trigger] c[j].nodes@[k]) is Function ==> no_inner(c[j].nodes@[k]->Function_0.params@)
}

/*@ idlc_codegen_java/src/interface/mod.rs | fn emit_interface | fmt,for_each,for_own=interface,consts=idlc_codegen_java/src/interface/mink_primitives.rs,marks=$%,opt_map,opt_map_or,meth_push_str,meth_to_string,meth_to_uppercase,meth_unwrap_or_default,meth_as_ref
ret r
spec {
    requires all_callable(lineage(*interface)), all_plain(lineage(*interface)),
    ensures
        says_all(r@, What::ErrorJ, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(r@, What::OpJ, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(r@, What::CallJ, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(r@, What::CaseJ, interface.ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
}
loop 0 {
    invariant
        all_callable(lineage(*interface)), all_plain(lineage(*interface)), ident.ident@ == interface.ident.ident@,
        verif_iter.rest() == lineage(*interface).skip(lineage(*interface).len() - verif_iter.rest().len()), 0 <= verif_iter.rest().len() <= lineage(*interface).len(),
        says_all(errors@, What::ErrorJ, ident.ident@, lineage(*interface), 0, lineage(*interface).len() - verif_iter.rest().len()),
        says_all(op_codes@, What::OpJ, ident.ident@, lineage(*interface), 0, lineage(*interface).len() - verif_iter.rest().len()),
        says_all(implementations@, What::CallJ, ident.ident@, lineage(*interface), 0, lineage(*interface).len() - verif_iter.rest().len()),
        says_all(invokes@, What::CaseJ, ident.ident@, lineage(*interface), 0, lineage(*interface).len() - verif_iter.rest().len()),
    ensures
        says_all(errors@, What::ErrorJ, ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(op_codes@, What::OpJ, ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(implementations@, What::CallJ, ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
        says_all(invokes@, What::CaseJ, ident.ident@, lineage(*interface), 0, lineage(*interface).len() as int),
    decreases verif_iter.rest().len()
}
body 0 { let ghost c = lineage(*interface); let ghost n = c.len() - verif_iter.rest().len(); proof { if n < c.len() { assert(c.skip(n)[0] == c[n]); assert(c.skip(n).skip(1) =~= c.skip(n + 1)); } } }
loop 1 {
    invariant
        all_callable(c), all_plain(c), 0 <= n < c.len(), *iface == c[n], ident.ident@ == interface.ident.ident@,
        it1.seq().len() == iface.nodes@.len(), forall|k: int| 0 <= k < iface.nodes@.len() ==> *(#[trigger] it1.seq()[k]) == iface.nodes@[k],
        says_all(errors@, What::ErrorJ, ident.ident@, c, 0, n), says_all(op_codes@, What::OpJ, ident.ident@, c, 0, n),
        says_all(implementations@, What::CallJ, ident.ident@, c, 0, n), says_all(invokes@, What::CaseJ, ident.ident@, c, 0, n),
        says(errors@, What::ErrorJ, ident.ident@, iface.ident.ident@, iface.nodes@, it1.index()),
        says(op_codes@, What::OpJ, ident.ident@, iface.ident.ident@, iface.nodes@, it1.index()),
        says(implementations@, What::CallJ, ident.ident@, iface.ident.ident@, iface.nodes@, it1.index()),
        says(invokes@, What::CaseJ, ident.ident@, iface.ident.ident@, iface.nodes@, it1.index()),
}
body 1 { let ghost k = it1.index(); proof { assert(*it1.seq()[k] == iface.nodes@[k]); assert(c[n].nodes@[k] == iface.nodes@[k]); } }
end 1 {
    proof {
        says_next(errors@, What::ErrorJ, ident.ident@, iface.ident.ident@, iface.nodes@, k);
        says_next(op_codes@, What::OpJ, ident.ident@, iface.ident.ident@, iface.nodes@, k);
        says_next(implementations@, What::CallJ, ident.ident@, iface.ident.ident@, iface.nodes@, k);
        says_next(invokes@, What::CaseJ, ident.ident@, iface.ident.ident@, iface.nodes@, k);
    }
}
after 1 {
    proof {
        all_next(errors@, What::ErrorJ, ident.ident@, c, 0, n); all_next(op_codes@, What::OpJ, ident.ident@, c, 0, n);
        all_next(implementations@, What::CallJ, ident.ident@, c, 0, n); all_next(invokes@, What::CaseJ, ident.ident@, c, 0, n);
    }
}
@*/

}
}
fn main() {}
