//@include common
//@include names
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
//@include ast_structs
verus! {

global size_of usize == 8;

/// HashSet<&Ident>: Ident's Eq and Hash look at the name alone
#[verifier::external_body]
pub struct IdentSet<'a> { m: std::collections::HashMap<String, &'a Ident> }

impl<'a> View for IdentSet<'a> {
    type V = Set<Seq<char>>;
    uninterp spec fn view(&self) -> Set<Seq<char>>;
}

impl<'a> IdentSet<'a> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<Seq<char>>::empty(),
    { IdentSet { m: std::collections::HashMap::new() } }

    #[verifier::external_body]
    pub fn get(&self, k: &&'a Ident) -> (r: Option<&&'a Ident>)
        ensures r is Some <==> self@.contains(k.ident@),
    { self.m.get(&k.ident) }

    #[verifier::external_body]
    pub fn insert(&mut self, k: &'a Ident) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k.ident@), r == !old(self)@.contains(k.ident@),
    { self.m.insert(k.ident.clone(), k).is_none() }
}

// ---------------------------------------------------------------- specification

pub open spec fn psize(p: Primitive) -> nat {
    match p {
        Primitive::Uint8 => 1,
        Primitive::Int8 => 1,
        Primitive::Uint16 => 2,
        Primitive::Int16 => 2,
        Primitive::Uint32 => 4,
        Primitive::Int32 => 4,
        Primitive::Float32 => 4,
        Primitive::Uint64 => 8,
        Primitive::Int64 => 8,
        Primitive::Float64 => 8,
    }
}

/// size and alignment of the structs laid out so far
pub type Table = Map<Seq<char>, (usize, usize)>;

/// (size, alignment) of one element, as every one of the targets has it
pub open spec fn elem(ty: Type, t: Table) -> (nat, nat) {
    match ty {
        Type::Primitive(p) => (psize(p), psize(p)),
        Type::Custom(c) => (t[c.ident@].0 as nat, t[c.ident@].1 as nat),
        // a pair of pointers (see DESIGN.md, D-ptr)
        Type::Interface => (16, 8),
        Type::UntypedBuffer => (0, 1),
    }
}

/// the sum of the sizes of the first k fields: the offset at which the compiler puts field k
pub open spec fn offset(f: Seq<StructField>, t: Table, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { offset(f, t, k - 1) + elem(f[k - 1].val.0, t).0 * (f[k - 1].val.1@ as nat) }
}

pub open spec fn max_align(f: Seq<StructField>, t: Table, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else {
        let a = elem(f[k - 1].val.0, t).1;
        let b = max_align(f, t, k - 1);
        if a > b { a } else { b }
    }
}

pub open spec fn distinct(f: Seq<StructField>, k: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < k ==> f[i].ident.ident@ != f[j].ident.ident@
}

pub open spec fn aligned(f: Seq<StructField>, t: Table, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> #[trigger] offset(f, t, i) % elem(f[i].val.0, t).1 == 0
}

/// the rule of C06: every field on its alignment at the sum of the sizes before it, the total a multiple of the largest alignment,
/// the fields told apart by their names, the size representable
pub open spec fn natural(f: Seq<StructField>, t: Table) -> bool {
    &&& distinct(f, f.len() as int)
    &&& aligned(f, t, f.len() as int)
    &&& offset(f, t, f.len() as int) % max_align(f, t, f.len() as int) == 0
    &&& offset(f, t, f.len() as int) <= 0x1fff_ffff_ffff_ffff
}

/// sizes and alignments of the structs in the order given
pub open spec fn table(s: Map<Seq<char>, Struct>, order: Seq<String>, k: int) -> Table
    decreases k
{
    if k <= 0 { Map::empty() } else {
        let t = table(s, order, k - 1);
        let f = s[order[k - 1]@].fields@;
        t.insert(order[k - 1]@, (offset(f, t, f.len() as int) as usize, max_align(f, t, f.len() as int) as usize))
    }
}

pub open spec fn all_natural(s: Map<Seq<char>, Struct>, order: Seq<String>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> natural(s[order[j]@].fields@, #[trigger] table(s, order, j))
}

/// C10: a struct the rule admits is not refused
pub open spec fn refused_for_a_reason<T, E>(r: Result<T, E>, s: Map<Seq<char>, Struct>, order: Seq<String>) -> bool {
    r is Err ==> !all_natural(s, order, order.len() as int)
}

// ---------------------------------------------------------------- what that means for C, C++ and repr(C) Rust

pub open spec fn round_up(n: nat, a: nat) -> nat {
    if a == 0 || n % a == 0 { n } else { (n + a - n % a) as nat }
}

/// the offset the C ABI gives field k: after field k - 1, rounded up to the alignment of field k
pub open spec fn c_offset(f: Seq<StructField>, t: Table, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else {
        let end = c_offset(f, t, k - 1) + elem(f[k - 1].val.0, t).0 * (f[k - 1].val.1@ as nat);
        if k < f.len() { round_up(end, elem(f[k].val.0, t).1) } else { end }
    }
}

/// sizeof: the end of the last field rounded up to the alignment of the struct, its largest member alignment
pub open spec fn c_size(f: Seq<StructField>, t: Table) -> nat {
    round_up(c_offset(f, t, f.len() as int), max_align(f, t, f.len() as int))
}

pub proof fn c_layout_has_no_padding(f: Seq<StructField>, t: Table, k: int)
    requires natural(f, t), 0 <= k <= f.len(),
    ensures c_offset(f, t, k) == offset(f, t, k), c_size(f, t) == offset(f, t, f.len() as int),
    decreases k
{
    c_upto(f, t, k);
    c_upto(f, t, f.len() as int);
}

proof fn c_upto(f: Seq<StructField>, t: Table, k: int)
    requires natural(f, t), 0 <= k <= f.len(),
    ensures c_offset(f, t, k) == offset(f, t, k),
    decreases k
{
    if k > 0 {
        c_upto(f, t, k - 1);
    }
}

/// the table has exactly the structs laid out so far
pub proof fn table_dom(s: Map<Seq<char>, Struct>, order: Seq<String>, k: int)
    requires 0 <= k <= order.len(),
    ensures forall|x: Seq<char>| #[trigger] table(s, order, k).dom().contains(x) <==> exists|j: int| 0 <= j < k && #[trigger] order[j]@ == x,
    decreases k
{
    if k > 0 {
        table_dom(s, order, k - 1);
        assert forall|x: Seq<char>| #[trigger] table(s, order, k).dom().contains(x) <==> exists|j: int| 0 <= j < k && #[trigger] order[j]@ == x by {
            if x == order[k - 1]@ {} else if table(s, order, k - 1).dom().contains(x) {
                let j = choose|j: int| 0 <= j < k - 1 && #[trigger] order[j]@ == x;
                assert(order[j]@ == x);
            }
        }
    }
}

/// every entry of the table is a size with a positive alignment
pub proof fn table_sound(s: Map<Seq<char>, Struct>, order: Seq<String>, k: int)
    requires 0 <= k <= order.len(), ordered(s, order), all_natural(s, order, k),
    ensures forall|x: Seq<char>| #[trigger] table(s, order, k).dom().contains(x) ==> table(s, order, k)[x].1 > 0,
    decreases k
{
    if k > 0 {
        table_sound(s, order, k - 1);
        table_dom(s, order, k - 1);
        let t = table(s, order, k - 1);
        let f = s[order[k - 1]@].fields@;
        assert forall|i: int| 0 <= i < f.len() implies 0 < #[trigger] elem(f[i].val.0, t).1 <= usize::MAX by {
            let ty = s[order[k - 1]@].fields@[i].val.0;
            assert(!(ty is UntypedBuffer));
            if ty is Custom { assert(t.dom().contains(ty->Custom_0.ident@)); }
        }
        align_range(f, t, f.len() as int);
    }
}

proof fn align_range(f: Seq<StructField>, t: Table, k: int)
    requires 0 <= k <= f.len(),
        forall|i: int| 0 <= i < f.len() ==> 0 < #[trigger] elem(f[i].val.0, t).1 <= usize::MAX,
    ensures k > 0 ==> max_align(f, t, k) > 0, max_align(f, t, k) <= usize::MAX,
    decreases k
{
    if k > 0 { align_range(f, t, k - 1); assert(elem(f[k - 1].val.0, t).1 > 0); }
}

proof fn offset_mono(f: Seq<StructField>, t: Table, j: int, k: int)
    requires 0 <= j <= k <= f.len(),
    ensures offset(f, t, j) <= offset(f, t, k),
    decreases k - j
{
    if j < k { offset_mono(f, t, j, k - 1); }
}

// ---------------------------------------------------------------- the code

#[verifier::external_body]
pub struct IDLStore { m: std::collections::HashMap<String, Struct> }

impl IDLStore {
    pub uninterp spec fn structs(&self) -> Map<Seq<char>, Struct>;

    #[verifier::external_body]
    pub fn struct_lookup(&self, name: &str) -> (r: Option<(Rc<Struct>, PathBuf)>)
        ensures r is Some <==> self.structs().dom().contains(name@),
            r is Some ==> *(r->Some_0).0 == self.structs()[name@],
    { unimplemented!() }
}

/*@ idlc_ast/src/ast.rs | fn Primitive::size |
ret r
spec { ensures r == psize(self), r > 0 }
@*/
/*@ idlc_ast/src/ast.rs | fn Primitive::alignment |
ret r
spec { ensures r == psize(self), r > 0 }
@*/
/*@ idlc_ast/src/ast.rs | fn Type::interface_size |
ret r
spec { ensures r == 16 }
@*/
/*@ idlc_ast/src/ast.rs | fn Type::interface_align |
ret r
spec { ensures r == 8 }
@*/
/*@ idlc_ast_passes/src/struct_verifier.rs | type Size | @*/
/*@ idlc_ast_passes/src/struct_verifier.rs | type Alignment | @*/
/*@ idlc_ast_passes/src/struct_verifier.rs | const MAX_STRUCT_SIZE | @*/
/*@ idlc_ast_passes/src/struct_verifier.rs | enum Error | @*/
/*@ idlc_ast_passes/src/struct_verifier.rs | struct StructVerifier | @*/

/*@ idlc_ast_passes/src/struct_verifier.rs | fn StructVerifier::run_pass | opt_and_then,opt_filter,opt_ok_or_else,vec
ret r
sub HashMap<String, (Size, Alignment)> = HashMap::new() => NameMap<(Size, Alignment)> = NameMap::new()
sub HashSet<&Ident> = HashSet::new() => IdentSet<'_> = IdentSet::new()
spec {
    requires ordered(idl_store.structs(), toposort@),
    ensures
        r is Ok ==> all_natural(idl_store.structs(), toposort@, toposort@.len() as int),
        refused_for_a_reason(r, idl_store.structs(), toposort@),
}
loop 0 {
    invariant
        ordered(idl_store.structs(), toposort@),
        it0.seq().len() == toposort@.len(),
        forall|j: int| 0 <= j < toposort@.len() ==> *(#[trigger] it0.seq()[j]) == toposort@[j],
        store@ == table(idl_store.structs(), toposort@, it0.index()),
        all_natural(idl_store.structs(), toposort@, it0.index()),
}
body 0 {
    let ghost s = idl_store.structs();
    let ghost k = it0.index();
    let ghost t = store@;
    let ghost f = s[toposort@[k]@].fields@;
    proof {
        assert(*it0.seq()[k] == toposort@[k]);
        table_dom(s, toposort@, k);
        table_sound(s, toposort@, k);
        assert(all_natural(s, toposort@, toposort@.len() as int) ==> natural(f, table(s, toposort@, k)));
        assert forall|i: int| 0 <= i < f.len() implies 0 < #[trigger] elem(f[i].val.0, t).1 <= usize::MAX && elem(f[i].val.0, t).0 <= usize::MAX by {
            let ty = s[toposort@[k]@].fields@[i].val.0;
            assert(!(ty is UntypedBuffer));
            if ty is Custom { assert(t.dom().contains(ty->Custom_0.ident@)); }
        }
        align_range(f, t, f.len() as int);
    }
}
loop 1 {
    invariant
        ordered(s, toposort@), s == idl_store.structs(), 0 <= k < toposort@.len(), t == store@, raw_struct@ == toposort@[k]@,
        f == s[toposort@[k]@].fields@, node.fields@ == f, f.len() > 0,
        t == table(s, toposort@, k),
        all_natural(s, toposort@, toposort@.len() as int) ==> natural(f, t),
        forall|x: Seq<char>| #[trigger] t.dom().contains(x) <==> exists|j: int| 0 <= j < k && #[trigger] toposort@[j]@ == x,
        forall|i: int| 0 <= i < f.len() ==> 0 < #[trigger] elem(f[i].val.0, t).1 <= usize::MAX && elem(f[i].val.0, t).0 <= usize::MAX,
        it1.seq().len() == f.len(),
        forall|j: int| 0 <= j < f.len() ==> *(#[trigger] it1.seq()[j]) == f[j],
        size == offset(f, t, it1.index()), size <= MAX_STRUCT_SIZE,
        alignment == max_align(f, t, it1.index()), it1.index() > 0 ==> alignment > 0,
        distinct(f, it1.index()), aligned(f, t, it1.index()),
        forall|x: Seq<char>| #[trigger] fields@.contains(x) <==> exists|i: int| 0 <= i < it1.index() && #[trigger] f[i].ident.ident@ == x,
}
body 1 {
    let ghost n = it1.index();
    proof {
        assert(*it1.seq()[n] == f[n]);
        let ty = s[toposort@[k]@].fields@[n].val.0;
        assert(!(ty is UntypedBuffer));
        if ty is Custom { assert(t.dom().contains(ty->Custom_0.ident@)); }
        assert(elem(f[n].val.0, t).1 > 0);
        offset_mono(f, t, n + 1, f.len() as int);
        assert(offset(f, t, n + 1) == offset(f, t, n) + elem(f[n].val.0, t).0 * (f[n].val.1@ as nat));
        assert(offset(f, t, n + 1) > MAX_STRUCT_SIZE ==> !natural(f, t));
        assert(offset(f, t, n) % elem(f[n].val.0, t).1 != 0 ==> !natural(f, t));
        assert(fields@.contains(f[n].ident.ident@) ==> !distinct(f, f.len() as int));
        assert(elem(f[n].val.0, t).0 * (f[n].val.1@ as nat) == (elem(f[n].val.0, t).0 as int) * (f[n].val.1@ as int));
    }
}
end 1 {
    proof {
        assert forall|x: Seq<char>| #[trigger] fields@.contains(x) <==> exists|i: int| 0 <= i < n + 1 && #[trigger] f[i].ident.ident@ == x by {
            if x == f[n].ident.ident@ {} else if fields@.contains(x) {
                let i = choose|i: int| 0 <= i < n && #[trigger] f[i].ident.ident@ == x;
                assert(f[i].ident.ident@ == x);
            }
        }
    }
}
@*/

}
fn main() {}
