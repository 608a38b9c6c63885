//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
//@include mirtypes
//@include chain_spec
verus! {

/*@ idlc_ast/src/ast.rs | struct Ast | as_ast @*/
/*@ idlc_mir/src/mir.rs | enum Node | @*/
/*@ idlc_mir/src/mir.rs | struct Mir | @*/
/*@ idlc_mir/src/mir.rs | const ERROR_CODE_START | @*/
/*@ idlc_mir/src/mir.rs | const MAX_OP_CODE | @*/

// ---------------------------------------------------------------- specification: numbering is determined by position

pub open spec fn fns(n: Seq<AstInterfaceNode>, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { fns(n, k - 1) + (if n[k - 1] is Function { 1nat } else { 0nat }) }
}

pub open spec fn errs(n: Seq<AstInterfaceNode>, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { errs(n, k - 1) + (if n[k - 1] is Error { 1nat } else { 0nat }) }
}

pub type Ifaces = Map<Seq<char>, AstInterface>;

pub open spec fn bases_of(s: Ifaces) -> Bases { s.map_values(|i: AstInterface| match i.base { Some(b) => Some(b.ident@), None => None }) }

/// how deep a chain of ancestors is
pub closed spec fn rank(s: Ifaces, n: Seq<char>) -> nat { depth(bases_of(s), n) }

/// nesting of inheritance goes down
pub open spec fn grounded(s: Ifaces) -> bool {
    forall|n: Seq<char>| #[trigger] s.dom().contains(n) && s[n].base is Some ==> rank(s, s[n].base->Some_0.ident@) < rank(s, n)
}

/// what Cycles has established for every interface of every file (unit cycles) is what the numbering starts from
pub proof fn finite_means_grounded(s: Ifaces)
    requires forall|n: Seq<char>| s.dom().contains(n) ==> #[trigger] ends(bases_of(s), n),
    ensures grounded(s),
{
    let b = bases_of(s);
    assert forall|n: Seq<char>| #[trigger] s.dom().contains(n) && s[n].base is Some implies rank(s, s[n].base->Some_0.ident@) < rank(s, n) by {
        assert(b.dom().contains(n) && b[n] == Some(s[n].base->Some_0.ident@));
        assert(ends(b, n));
        ends_means_descends(b, n);
    }
}

pub open spec fn height(s: Ifaces, i: AstInterface) -> nat {
    match i.base { None => 0, Some(b) => rank(s, b.ident@) + 1 }
}

/// the members of the ancestors, root first, then the interface's own
pub open spec fn flat(s: Ifaces, i: AstInterface) -> Seq<AstInterfaceNode>
    decreases height(s, i)
{
    match i.base {
        None => i.nodes@,
        Some(b) => if s.dom().contains(b.ident@) && grounded(s) { flat(s, s[b.ident@]) + i.nodes@ } else { i.nodes@ },
    }
}

pub open spec fn inherited(s: Ifaces, i: AstInterface) -> Seq<AstInterfaceNode> {
    match i.base { None => Seq::empty(), Some(b) => flat(s, s[b.ident@]) }
}

pub open spec fn undefined_base(s: Ifaces, i: AstInterface) -> bool
    decreases height(s, i)
{
    match i.base {
        None => false,
        Some(b) => !s.dom().contains(b.ident@) || (grounded(s) && undefined_base(s, s[b.ident@])),
    }
}

/// the members of one level in order: kinds, names and parameter counts kept
pub open spec fn shape(a: Seq<AstInterfaceNode>, m: Seq<InterfaceNode>, k: int) -> bool {
    &&& m.len() == k
    &&& forall|j: int| #![trigger a[j]] #![trigger m[j]] 0 <= j < k ==> match a[j] {
        AstInterfaceNode::Function(f) => m[j] is Function && m[j]->Function_0.ident == f.ident && m[j]->Function_0.params.len() == f.params.len(),
        AstInterfaceNode::Error(e) => m[j] is Error && m[j]->Error_0.ident == e,
        AstInterfaceNode::Const(c) => m[j] is Const,
    }
}

/// C07: functions numbered from `op` by position, within the reserved range
pub open spec fn op_codes(a: Seq<AstInterfaceNode>, m: Seq<InterfaceNode>, op: nat, k: int) -> bool {
    forall|j: int| #![trigger a[j]] #![trigger m[j]] 0 <= j < k && a[j] is Function ==> m[j]->Function_0.id == op + fns(a, j) && m[j]->Function_0.id <= 0x3fff
}

/// C08: errors valued from `err` by position
pub open spec fn err_codes(a: Seq<AstInterfaceNode>, m: Seq<InterfaceNode>, err: nat, k: int) -> bool {
    forall|j: int| #![trigger a[j]] #![trigger m[j]] 0 <= j < k && a[j] is Error ==> m[j]->Error_0.value == err + errs(a, j)
}

pub open spec fn shaped(s: Ifaces, a: AstInterface, m: Interface) -> bool
    decreases height(s, a)
{
    &&& m.ident == a.ident
    &&& shape(a.nodes@, m.nodes@, a.nodes.len() as int)
    &&& match a.base {
        None => m.base is None,
        Some(b) => s.dom().contains(b.ident@) && grounded(s) && m.base is Some && shaped(s, s[b.ident@], *(m.base->Some_0)),
    }
}

pub open spec fn op_numbered(s: Ifaces, a: AstInterface, m: Interface, op: nat) -> bool
    decreases height(s, a)
{
    match a.base {
        None => op_codes(a.nodes@, m.nodes@, op, a.nodes.len() as int),
        Some(b) => s.dom().contains(b.ident@) && grounded(s) && m.base is Some && {
            let f = flat(s, s[b.ident@]);
            &&& op_numbered(s, s[b.ident@], *(m.base->Some_0), op)
            &&& op_codes(a.nodes@, m.nodes@, op + fns(f, f.len() as int), a.nodes.len() as int)
        },
    }
}

pub open spec fn err_numbered(s: Ifaces, a: AstInterface, m: Interface, err: nat) -> bool
    decreases height(s, a)
{
    match a.base {
        None => err_codes(a.nodes@, m.nodes@, err, a.nodes.len() as int),
        Some(b) => s.dom().contains(b.ident@) && grounded(s) && m.base is Some && {
            let f = flat(s, s[b.ident@]);
            &&& err_numbered(s, s[b.ident@], *(m.base->Some_0), err)
            &&& err_codes(a.nodes@, m.nodes@, err + errs(f, f.len() as int), a.nodes.len() as int)
        },
    }
}

// ---------------------------------------------------------------- what C07, C08 and C15 read off it

/// the members of the generated interface, root first
pub open spec fn mflat(m: Interface) -> Seq<InterfaceNode>
    decreases m
{
    match m.base { None => m.nodes@, Some(b) => mflat(*b) + m.nodes@ }
}

proof fn counts_add(a: Seq<AstInterfaceNode>, b: Seq<AstInterfaceNode>, k: int)
    requires 0 <= k <= b.len(),
    ensures fns(a + b, a.len() + k) == fns(a, a.len() as int) + fns(b, k), errs(a + b, a.len() + k) == errs(a, a.len() as int) + errs(b, k),
    decreases k
{
    if k > 0 {
        counts_add(a, b, k - 1);
        assert((a + b)[a.len() + k - 1] == b[k - 1]);
    } else {
        prefix_counts(a, a + b, a.len() as int);
    }
}

/// the numbers of a member depend on the members before it alone: what C15 needs of the numbering
pub proof fn prefix_counts(a: Seq<AstInterfaceNode>, b: Seq<AstInterfaceNode>, k: int)
    requires 0 <= k <= a.len() <= b.len(), forall|j: int| 0 <= j < k ==> a[j] == b[j],
    ensures fns(a, k) == fns(b, k), errs(a, k) == errs(b, k),
    decreases k
{
    if k > 0 { prefix_counts(a, b, k - 1); }
}

/// C07 and C08 on the flattened interface: member k of the whole chain is a function with number op + (functions before it), or an error
/// with value err + (errors before it): consecutive, unique, ancestors first, at most 0x3fff
pub proof fn flat_numbers(s: Ifaces, a: AstInterface, m: Interface, op: nat, err: nat)
    requires shaped(s, a, m),
    ensures shape(flat(s, a), mflat(m), flat(s, a).len() as int),
        op_numbered(s, a, m, op) ==> op_codes(flat(s, a), mflat(m), op, flat(s, a).len() as int),
        err_numbered(s, a, m, err) ==> err_codes(flat(s, a), mflat(m), err, flat(s, a).len() as int),
    decreases height(s, a)
{
    if let Some(b) = a.base {
        let ba = s[b.ident@];
        let f = flat(s, ba);
        let mb = *(m.base->Some_0);
        flat_numbers(s, ba, mb, op, err);
        let g = flat(s, a);
        let h = mflat(m);
        assert(g == f + a.nodes@);
        assert(h == mflat(mb) + m.nodes@);
        assert forall|j: int| #![trigger g[j]] #![trigger h[j]] 0 <= j < g.len() implies
            (if j < f.len() { g[j] == f[j] && h[j] == mflat(mb)[j] && fns(g, j) == fns(f, j) && errs(g, j) == errs(f, j) }
             else { g[j] == a.nodes@[j - f.len()] && h[j] == m.nodes@[j - f.len()]
                 && fns(g, j) == fns(f, f.len() as int) + fns(a.nodes@, j - f.len()) && errs(g, j) == errs(f, f.len() as int) + errs(a.nodes@, j - f.len()) }) by {
            if j < f.len() { prefix_counts(f, g, j); } else { counts_add(f, a.nodes@, j - f.len()); }
        }
    }
}

proof fn fns_step(a: Seq<AstInterfaceNode>, i: int, j: int)
    requires 0 <= i < j <= a.len(),
    ensures fns(a, i) + (if a[i] is Function { 1nat } else { 0nat }) <= fns(a, j), errs(a, i) + (if a[i] is Error { 1nat } else { 0nat }) <= errs(a, j),
    decreases j - i
{
    if i + 1 < j { fns_step(a, i, j - 1); }
}

/// no number is given twice within the flattened interface
pub proof fn unique_numbers(a: Seq<AstInterfaceNode>, m: Seq<InterfaceNode>, op: nat, err: nat, i: int, j: int)
    requires op_codes(a, m, op, a.len() as int), err_codes(a, m, err, a.len() as int), 0 <= i < j < a.len(),
    ensures a[i] is Function && a[j] is Function ==> m[i]->Function_0.id < m[j]->Function_0.id,
        a[i] is Error && a[j] is Error ==> m[i]->Error_0.value < m[j]->Error_0.value,
{
    fns_step(a, i, j);
}

/// C15: a longer interface (members appended) gives the old members the same numbers
pub proof fn appending_keeps_numbers(a: Seq<AstInterfaceNode>, m: Seq<InterfaceNode>, a2: Seq<AstInterfaceNode>, m2: Seq<InterfaceNode>, op: nat, err: nat, j: int)
    requires op_codes(a, m, op, a.len() as int), op_codes(a2, m2, op, a2.len() as int),
        err_codes(a, m, err, a.len() as int), err_codes(a2, m2, err, a2.len() as int),
        a.len() <= a2.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == a2[i], 0 <= j < a.len(),
    ensures a[j] is Function ==> m2[j]->Function_0.id == m[j]->Function_0.id,
        a[j] is Error ==> m2[j]->Error_0.value == m[j]->Error_0.value,
{
    prefix_counts(a, a2, j);
    assert(a[j] == a2[j]);
}

// ---------------------------------------------------------------- the code

#[verifier::external_body]
pub struct IDLStore { m: std::collections::HashMap<String, String> }

impl IDLStore {
    pub uninterp spec fn ifaces(&self) -> Ifaces;

    #[verifier::external_body]
    pub fn iface_lookup(&self, name: &str) -> (r: Option<Rc<AstInterface>>)
        ensures r is Some <==> self.ifaces().dom().contains(name@),
            r is Some ==> *(r->Some_0) == self.ifaces()[name@],
    { unimplemented!() }
}

impl Const {
    /// the constant keeps its type and literal (C17's check)
    #[verifier::external_body]
    pub fn from(c: &AstConst) -> (r: Self)
    { unimplemented!() }
}

impl Param {
    #[verifier::external_body]
    pub fn new(p: &AstParam, s: &IDLStore) -> (r: Self)
    { unimplemented!() }
}

pub open spec fn too_many(s: Ifaces, i: AstInterface, op: nat, err: nat) -> bool {
    let f = flat(s, i);
    op + fns(f, f.len() as int) > 0x4000 || err + errs(f, f.len() as int) > i32::MAX
}

/*@ idlc_mir/src/mir.rs | fn parse_interface | ast_prefix,opt_map,opt_unwrap,opt_expect
ret r
spec {
    requires
        0 <= *old(error_code), *old(op_code) <= 0x4000,
        grounded(old(idl_store).ifaces()),
        undefined_base(old(idl_store).ifaces(), *interface_) ==> may_refuse(),
        too_many(old(idl_store).ifaces(), *interface_, *old(op_code) as nat, *old(error_code) as nat) ==> may_refuse(),
    ensures
        final(idl_store).ifaces() == old(idl_store).ifaces(),
        shaped(old(idl_store).ifaces(), *interface_, r),
        op_numbered(old(idl_store).ifaces(), *interface_, r, *old(op_code) as nat),
        err_numbered(old(idl_store).ifaces(), *interface_, r, *old(error_code) as nat),
        *final(op_code) == *old(op_code) + fns(flat(old(idl_store).ifaces(), *interface_), flat(old(idl_store).ifaces(), *interface_).len() as int),
        *final(op_code) <= 0x4000,
        *final(error_code) == *old(error_code) + errs(flat(old(idl_store).ifaces(), *interface_), flat(old(idl_store).ifaces(), *interface_).len() as int),
    decreases height(old(idl_store).ifaces(), *interface_)
}
start {
    let ghost s = idl_store.ifaces();
    let ghost o0 = *op_code as nat;
    let ghost e0 = *error_code as nat;
    let ghost inh = inherited(s, *interface_);
    let ghost f = flat(s, *interface_);
    proof {
        if interface_.base is Some && s.dom().contains(interface_.base->Some_0.ident@) {
            assert(f == inh + interface_.nodes@);
            counts_add(inh, interface_.nodes@, interface_.nodes@.len() as int);
        } else if interface_.base is None { assert(f == interface_.nodes@); }
    }
}
before 0 {
    let ghost ob = *op_code as nat;
    let ghost eb = *error_code as nat;
    proof {
        if interface_.base is Some {
            assert(ob == o0 + fns(inh, inh.len() as int));
            assert(eb == e0 + errs(inh, inh.len() as int));
        }
    }
}
loop 0 {
    invariant
        it0.seq().len() == interface_.nodes@.len(),
        forall|j: int| 0 <= j < interface_.nodes@.len() ==> *(#[trigger] it0.seq()[j]) == interface_.nodes@[j],
        idl_store.ifaces() == s,
        shape(interface_.nodes@, iface_nodes@, it0.index()),
        op_codes(interface_.nodes@, iface_nodes@, ob, it0.index()),
        err_codes(interface_.nodes@, iface_nodes@, eb, it0.index()),
        *op_code == ob + fns(interface_.nodes@, it0.index()), *op_code <= 0x4000,
        *error_code == eb + errs(interface_.nodes@, it0.index()),
        ob + fns(interface_.nodes@, interface_.nodes@.len() as int) > 0x4000 ==> may_refuse(),
        eb + errs(interface_.nodes@, interface_.nodes@.len() as int) > i32::MAX ==> may_refuse(),
}
body 0 {
    let ghost k = it0.index();
    let ghost before = iface_nodes@;
    proof {
        assert(*it0.seq()[k] == interface_.nodes@[k]);
        fns_step(interface_.nodes@, k, interface_.nodes@.len() as int);
    }
}
loop 1 {
    invariant
        it1.seq().len() == function.params@.len(),
        forall|j: int| 0 <= j < function.params@.len() ==> *(#[trigger] it1.seq()[j]) == function.params@[j],
        params.len() == it1.index(),
}
end 0 {
    proof {
        assert(forall|j: int| 0 <= j < k ==> iface_nodes@[j] == before[j]);
    }
}
@*/

#[verifier::external_body]
pub fn parse_include(path: &PathBuf) -> (r: Rc<Node>)
    ensures *r is Include,
{ unimplemented!() }

#[verifier::external_body]
pub fn parse_const(c: &AstConst) -> (r: Rc<Node>)
    ensures *r is Const,
{ unimplemented!() }

#[verifier::external_body]
pub fn parse_struct(c: &AstStruct, s: &IDLStore) -> (r: Rc<Node>)
    ensures *r is Struct,
{ unimplemented!() }

pub open spec fn mapped(s: Ifaces, a: AstNode, m: Node) -> bool {
    match a {
        AstNode::Include(_) => m is Include,
        AstNode::Const(_) => m is Const,
        AstNode::Struct(_) => m is Struct,
        // every interface starts anew: methods from 0, errors from 10
        AstNode::Interface(i) => m is Interface && shaped(s, i, m->Interface_0),
    }
}

pub open spec fn op_mapped(s: Ifaces, a: AstNode, m: Node) -> bool {
    a is Interface ==> op_numbered(s, a->Interface_0, m->Interface_0, 0)
}

pub open spec fn err_mapped(s: Ifaces, a: AstNode, m: Node) -> bool {
    a is Interface ==> err_numbered(s, a->Interface_0, m->Interface_0, 10)
}

/*@ idlc_mir/src/mir.rs | fn parse_to_mir | ast_prefix
ret r
sub let mut nodes = Vec::new() => let mut nodes: Vec<Rc<Node>> = Vec::new()
spec {
    requires
        grounded(old(idl_store).ifaces()),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> (*(#[trigger] ast.nodes@[j]) is Interface ==> {
            let i = (*ast.nodes@[j])->Interface_0;
            (undefined_base(old(idl_store).ifaces(), i) || too_many(old(idl_store).ifaces(), i, 0, 10)) ==> may_refuse()
        }),
    ensures
        r.nodes@.len() == ast.nodes@.len(),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> mapped(old(idl_store).ifaces(), *(#[trigger] ast.nodes@[j]), *r.nodes@[j]),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> op_mapped(old(idl_store).ifaces(), *(#[trigger] ast.nodes@[j]), *r.nodes@[j]),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> err_mapped(old(idl_store).ifaces(), *(#[trigger] ast.nodes@[j]), *r.nodes@[j]),
}
loop 0 {
    invariant
        it0.seq().len() == ast.nodes@.len(),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> *(#[trigger] it0.seq()[j]) == ast.nodes@[j],
        idl_store.ifaces() == old(idl_store).ifaces(),
        grounded(idl_store.ifaces()),
        nodes@.len() == it0.index(),
        forall|j: int| 0 <= j < it0.index() ==> mapped(idl_store.ifaces(), *(#[trigger] ast.nodes@[j]), *nodes@[j]),
        forall|j: int| 0 <= j < it0.index() ==> op_mapped(idl_store.ifaces(), *(#[trigger] ast.nodes@[j]), *nodes@[j]),
        forall|j: int| 0 <= j < it0.index() ==> err_mapped(idl_store.ifaces(), *(#[trigger] ast.nodes@[j]), *nodes@[j]),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> (*(#[trigger] ast.nodes@[j]) is Interface ==> {
            let i = (*ast.nodes@[j])->Interface_0;
            (undefined_base(idl_store.ifaces(), i) || too_many(idl_store.ifaces(), i, 0, 10)) ==> may_refuse()
        }),
}
body 0 {
    let ghost k = it0.index();
    let ghost before = nodes@;
    proof { assert(*it0.seq()[k] == ast.nodes@[k]); }
}
end 0 {
    assert(nodes@ == before.push(nodes@[k]));
}
@*/

}
fn main() {}
