// What the files of an interface have to say of its members and of those it inherits.
verus! {

/// a text that has to be there for a member
pub enum What { ErrorC, OpC, CallC, CaseC, PackC, ErrorJ, OpJ, CallJ, CaseJ, ErrorX, OpX, CallX, CaseX, PackX, ErrorR, CallR, CaseR, PackR }

/// in capitals
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub open spec fn pair(n: Seq<char>, m: Seq<char>) -> Seq<char> { n + m }

pub open spec fn part(w: What, ident: Seq<char>, iface: Seq<char>, m: InterfaceNode) -> Seq<char> {
    match m {
        InterfaceNode::Const(_) => Seq::empty(),
        InterfaceNode::Error(e) => match w {
            What::ErrorC => "#define "@ + ident + "_"@ + e.ident.ident@ + " INT32_C("@ + numeral(e.value as int) + ")\n"@,
            What::ErrorX => "static const int32_t "@ + e.ident.ident@ + " = INT32_C("@ + numeral(e.value as int) + ");"@,
            What::ErrorR => "pub const "@ + upper(e.ident.ident@) + ": Error = Error(unsafe { crate::object::Error::new_unchecked("@ + numeral(e.value as int) + ")"@,
            What::ErrorJ => "int "@ + ident + "_"@ + upper(e.ident.ident@) + " = "@ + numeral(e.value as int) + ";"@,
            _ => Seq::empty(),
        },
        InterfaceNode::Function(f) => match w {
            What::OpJ => "int "@ + ident + "_OP_"@ + f.ident.ident@ + " = "@ + numeral(f.id as int) + ";"@,
            What::OpX => "static const ObjectOp OP_"@ + f.ident.ident@ + " = "@ + numeral(f.id as int) + ";"@,
            What::CallX => call_x(f),
            What::CallR => call_r(f),
            What::CaseR => case_r(f),
            What::PackR => pack_r(f),
            What::CaseX => case_x(f),
            What::PackX => pack_x(f),
            What::CallJ => call_j(iface, f),
            What::CaseJ => case_c(iface, f),
            What::OpC => "#define "@ + ident + "_OP_"@ + f.ident.ident@ + " "@ + numeral(f.id as int) + "\n"@,
            What::CallC => call_c(iface, f),
            What::CaseC => case_c(iface, f),
            What::PackC => pack_c(f),
            _ => Seq::empty(),
        },
    }
}

pub open spec fn n_bi(f: Function) -> Seq<char> { numeral(buffers(f.params@, true) as int) }
pub open spec fn n_bo(f: Function) -> Seq<char> { numeral(buffers(f.params@, false) as int) }
pub open spec fn n_oi(f: Function) -> Seq<char> { numeral(objects(f.params@, true) as int) }
pub open spec fn n_oo(f: Function) -> Seq<char> { numeral(objects(f.params@, false) as int) }
pub open spec fn slots_of(f: Function) -> nat { buffers(f.params@, true) + buffers(f.params@, false) + objects(f.params@, true) + objects(f.params@, false) }

/// the call of the C stub: the op code of the method under the name of the interface that declares it, and the counts
pub open spec fn call_c(iface: Seq<char>, f: Function) -> Seq<char> {
    if slots_of(f) > 0 {
        "Object_invoke(self, "@ + iface + "_OP_"@ + f.ident.ident@ + ", a, ObjectCounts_pack("@ + n_bi(f) + ", "@ + n_bo(f) + ", "@ + n_oi(f) + ", "@ + n_oo(f) + "));"@
    } else {
        "Object_invoke(self, "@ + iface + "_OP_"@ + f.ident.ident@ + ", 0, 0)"@
    }
}
/// the call of the C++ proxy
pub open spec fn call_x(f: Function) -> Seq<char> {
    if slots_of(f) > 0 {
        "ProxyBase::invoke(OP_"@ + f.ident.ident@ + ", a, ObjectCounts_pack("@ + n_bi(f) + ", "@ + n_bo(f) + ", "@ + n_oi(f) + ", "@ + n_oo(f) + "));"@
    } else {
        "ProxyBase::invoke(OP_"@ + f.ident.ident@ + ", 0, 0);"@
    }
}
/// the counts of a call, as a tuple is displayed
pub open spec fn four(a: int, b: int, c: int, d: int) -> Seq<char> { "("@ + numeral(a) + ", "@ + numeral(b) + ", "@ + numeral(c) + ", "@ + numeral(d) + ")"@ }
pub open spec fn counts_of(f: Function) -> Seq<char> {
    four(buffers(f.params@, true) as int, buffers(f.params@, false) as int, objects(f.params@, true) as int, objects(f.params@, false) as int)
}
/// the call of the Rust proxy
pub open spec fn call_r(f: Function) -> Seq<char> {
    "self.0.invoke("@ + numeral(f.id as int) + ", _args.as_mut_ptr(), crate::object::pack_counts"@ + counts_of(f)
}
/// the branch of the Rust skeleton
pub open spec fn case_r(f: Function) -> Seq<char> { " "@ + numeral(f.id as int) + " => {"@ }
pub open spec fn pack_r(f: Function) -> Seq<char> { "if _counts != "@ + "crate::object::pack_counts"@ + counts_of(f) }
/// the branch of the C++ skeleton
pub open spec fn case_x(f: Function) -> Seq<char> { "case OP_"@ + f.ident.ident@ + ": {"@ }
pub open spec fn pack_x(f: Function) -> Seq<char> {
    "if (k != ObjectCounts_pack"@ + ("("@ + n_bi(f) + ", "@ + n_bo(f) + ", "@ + n_oi(f) + ", "@ + n_oo(f) + ")"@)
}
/// an array of the Java proxy
pub open spec fn arr(n: nat, a: Seq<char>) -> Seq<char> { if n > 0 { a } else { "null"@ } }
/// the call of the Java proxy
pub open spec fn call_j(iface: Seq<char>, f: Function) -> Seq<char> {
    "minkObject.invoke("@ + iface + "_OP_"@ + f.ident.ident@ + ", "@ + arr(buffers(f.params@, true), "bi"@) + ", "@ + arr(buffers(f.params@, false), "boSizes"@) + ", "@ + arr(buffers(f.params@, false), "bo"@)
        + ", "@ + arr(objects(f.params@, true), "oi"@) + ", "@ + arr(objects(f.params@, false), "oo"@) + ");"@
}
/// the branch of the C or Java skeleton
pub open spec fn case_c(iface: Seq<char>, f: Function) -> Seq<char> { "case "@ + iface + "_OP_"@ + f.ident.ident@ + ": {"@ }
/// which serves no call with other counts
pub open spec fn pack_c(f: Function) -> Seq<char> {
    "if (k != ObjectCounts_pack"@ + ("("@ + n_bi(f) + ","@ + n_bo(f) + ","@ + n_oi(f) + ","@ + n_oo(f) + ")"@)
}

/// the text has the part of each of the first k members
#[verifier::opaque]
pub open spec fn says(t: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> holds(t, part(w, ident, iface, #[trigger] m[i]))
}
/// and of those of the ancestors (or the interface itself, the first of the chain) from a on
#[verifier::opaque]
pub open spec fn says_all(t: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int) -> bool {
    forall|j: int| a <= j < n ==> says(t, w, ident, (#[trigger] c[j]).ident.ident@, c[j].nodes@, c[j].nodes@.len() as int)
}

pub broadcast proof fn says_none(t: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>)
    ensures #[trigger] says(t, w, ident, iface, m, 0),
{
    reveal(says);
}
pub proof fn says_next(t: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires says(t, w, ident, iface, m, k), holds(t, part(w, ident, iface, m[k])) || part(w, ident, iface, m[k]).len() == 0, 0 <= k < m.len(),
    ensures says(t, w, ident, iface, m, k + 1),
{
    reveal(says);
    if part(w, ident, iface, m[k]).len() == 0 {
        holds_in(t, part(w, ident, iface, m[k]), Seq::empty());
        assert(t + part(w, ident, iface, m[k]) + Seq::<char>::empty() =~= t);
    }
}
pub broadcast proof fn says_before(t: Seq<char>, e: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires #[trigger] says(t, w, ident, iface, m, k),
    ensures says(#[trigger] (t + e), w, ident, iface, m, k),
{
    reveal(says);
    assert forall|i: int| 0 <= i < k implies holds(t + e, part(w, ident, iface, #[trigger] m[i])) by { holds_before(t, e, part(w, ident, iface, m[i])); }
}
pub broadcast proof fn says_within(x: Seq<char>, t: Seq<char>, w: What, ident: Seq<char>, iface: Seq<char>, m: Seq<InterfaceNode>, k: int)
    requires #[trigger] says(t, w, ident, iface, m, k),
    ensures says(#[trigger] (x + t), w, ident, iface, m, k),
{
    reveal(says);
    assert forall|i: int| 0 <= i < k implies holds(x + t, part(w, ident, iface, #[trigger] m[i])) by { holds_within(x, t, part(w, ident, iface, m[i])); }
}
pub broadcast proof fn all_none(t: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int)
    ensures #[trigger] says_all(t, w, ident, c, a, a),
{
    reveal(says_all);
}
pub proof fn all_next(t: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int)
    requires says_all(t, w, ident, c, a, n), says(t, w, ident, c[n].ident.ident@, c[n].nodes@, c[n].nodes@.len() as int),
    ensures says_all(t, w, ident, c, a, n + 1),
{
    reveal(says_all);
}
pub proof fn all_own(t: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, n: int)
    requires says_all(t, w, ident, c, 1, n), says(t, w, ident, c[0].ident.ident@, c[0].nodes@, c[0].nodes@.len() as int),
    ensures says_all(t, w, ident, c, 0, n),
{
    reveal(says_all);
}
pub broadcast proof fn all_before(t: Seq<char>, e: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int)
    requires #[trigger] says_all(t, w, ident, c, a, n),
    ensures says_all(#[trigger] (t + e), w, ident, c, a, n),
{
    reveal(says_all);
    assert forall|j: int| a <= j < n implies says(t + e, w, ident, (#[trigger] c[j]).ident.ident@, c[j].nodes@, c[j].nodes@.len() as int) by {
        says_before(t, e, w, ident, c[j].ident.ident@, c[j].nodes@, c[j].nodes@.len() as int);
    }
}
pub broadcast proof fn all_within(x: Seq<char>, t: Seq<char>, w: What, ident: Seq<char>, c: Seq<Interface>, a: int, n: int)
    requires #[trigger] says_all(t, w, ident, c, a, n),
    ensures says_all(#[trigger] (x + t), w, ident, c, a, n),
{
    reveal(says_all);
    assert forall|j: int| a <= j < n implies says(x + t, w, ident, (#[trigger] c[j]).ident.ident@, c[j].nodes@, c[j].nodes@.len() as int) by {
        says_within(x, t, w, ident, c[j].ident.ident@, c[j].nodes@, c[j].nodes@.len() as int);
    }
}
pub broadcast group all_said { holds_pair, says_none, says_before, says_within, all_none, all_before, all_within }

pub broadcast proof fn holds_pair(x: Seq<char>, p: Seq<char>, d: Seq<char>)
    ensures holds(#[trigger] (x + p + d), p + d),
{
    holds_in(x, p + d, Seq::empty());
    assert(x + p + d =~= x + (p + d) + Seq::<char>::empty());
}

// ---------------------------------------------------------------- an interface and its ancestors

/// an interface, then its ancestors
pub open spec fn lineage(i: Interface) -> Seq<Interface>
    decreases i
{
    seq![i] + (match i.base { Some(b) => lineage(*b), None => Seq::empty() })
}

/// what the compiler has made sure of (units counts, interface)
pub open spec fn callable(f: Function) -> bool {
    wf_params(f.params@) && arrays_ok(f.params@) && sizes_ok(f.params@) && f.params@.len() <= u32::MAX && fits(f.params@)
}
pub open spec fn all_callable(c: Seq<Interface>) -> bool {
    forall|j: int, k: int| 0 <= j < c.len() && 0 <= k < c[j].nodes@.len() && (#[trigger] c[j].nodes@[k]) is Function ==> callable(c[j].nodes@[k]->Function_0)
}

/*@ idlc_mir/src/mir.rs | struct InterfaceIterator | @*/

impl<'a> InterfaceIterator<'a> {
    /// what is still to come
    pub open spec fn rest(&self) -> Seq<Interface> { match self.interface { Some(i) => lineage(*i), None => Seq::empty() } }
    /// std: an iterator is its own
    pub fn into_iter(self) -> (r: Self) ensures r == self, { self }
    /// std: the same elements but the first n
    pub fn skip(self, n: usize) -> (r: Self) ensures n <= self.rest().len() ==> r.rest() == self.rest().skip(n as int),
    {
        let mut me = self;
        let mut k = 0;
        while k < n
            invariant k <= n, n <= self.rest().len() ==> me.rest() == self.rest().skip(k as int),
            decreases n - k
        {
            let ghost was = me.rest();
            me.next();
            k += 1;
            proof { if n <= self.rest().len() { assert(was.skip(1) =~= self.rest().skip(k as int)); } }
        }
        proof { if n == 0 { assert(self.rest().skip(0) =~= self.rest()); } }
        me
    }
}

/*@ idlc_mir/src/mir.rs | impl Iterator InterfaceIterator | inherent
in next spec {
    ensures
        old(self).rest().len() == 0 ==> result is None && final(self).rest() == old(self).rest(),
        old(self).rest().len() > 0 ==> result is Some && *(result->0) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
}
@*/

/*@ idlc_mir/src/mir.rs | fn Interface::iter |
ret r
spec { ensures r.rest() == lineage(*self), r.rest().len() >= 1, r.rest()[0] == *self, }
@*/

pub trait AsDerefRc<T> {
    spec fn target(&self) -> Option<&T>;
    fn as_deref_(&self) -> (r: Option<&T>) ensures r == self.target();
}
impl<T> AsDerefRc<T> for Option<Rc<T>> {
    open spec fn target(&self) -> Option<&T> { match *self { Some(b) => Some(&*b), None => None } }
    fn as_deref_(&self) -> (r: Option<&T>)
    { match self { Some(b) => Some(&**b), None => None } }
}

// ---------------------------------------------------------------- texts put together

pub open spec fn flat(v: Seq<String>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last()@ }
}
pub trait Concat { fn concat_(&self) -> (r: String) ensures r@ == flat(self.texts()); spec fn texts(&self) -> Seq<String>; }
impl Concat for Vec<String> {
    open spec fn texts(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn concat_(&self) -> (r: String) { self.concat() }
}
pub trait AsRefStr { fn as_ref_(&self) -> (r: &str) ensures r@ == self.own(); spec fn own(&self) -> Seq<char>; }
impl AsRefStr for String {
    open spec fn own(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_ref_(&self) -> (r: &str) { self.as_ref() }
}
impl AsText for i32 {
    open spec fn as_text(&self) -> Seq<char> { numeral(*self as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}

pub trait Capitals { fn to_uppercase_(&self) -> String; }
impl Capitals for Ident {
    #[verifier::external_body]
    fn to_uppercase_(&self) -> (r: String) ensures r@ == upper(self.ident@), { unimplemented!() }
}
pub trait OrDefault { fn unwrap_or_default_(self) -> String; }
impl OrDefault for Option<String> {
    #[verifier::external_body]
    fn unwrap_or_default_(self) -> String { self.unwrap_or_default() }
}
pub trait Empty { fn is_empty_(&self) -> bool; }
impl Empty for String {
    #[verifier::external_body]
    fn is_empty_(&self) -> (r: bool) ensures r == (self@.len() == 0), { self.is_empty() }
}
impl Function {
    #[verifier::external_body]
    pub fn is_optional(&self) -> bool { unimplemented!() }
}

/// what documents a method (unit comments)
#[verifier::external_body]
pub struct Documentation { x: String }
pub enum DocumentationStyle { C, Java, Rust }
impl Documentation {
    #[verifier::external_body]
    pub fn new(f: &Function, style: DocumentationStyle) -> Self { unimplemented!() }
}
impl AsText for Documentation {
    uninterp spec fn as_text(&self) -> Seq<char>;
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}

}
