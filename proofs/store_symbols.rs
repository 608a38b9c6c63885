// the symbols of all files: gather_symbols_from_ast and the lookups
verus! {

/*@ idlc_ast_passes/src/idl_store.rs | enum Symbol | @*/

// ---------------------------------------------------------------- specification

pub uninterp spec fn sym_struct(n: Seq<char>) -> Key;
pub uninterp spec fn sym_iface(n: Seq<char>) -> Key;
pub uninterp spec fn sym_const(n: Seq<char>) -> Key;
/// the name and kind of a key: 0 struct, 1 interface, 2 constant
pub uninterp spec fn sym_name(k: Key) -> Seq<char>;
pub uninterp spec fn sym_kind(k: Key) -> int;

/// Symbol's Eq is derived: the same variant of the same characters
pub broadcast axiom fn sym_key(s: Symbol)
    ensures #[trigger] key(s) == (match s { Symbol::Struct(n) => sym_struct(n@), Symbol::Interface(n) => sym_iface(n@), Symbol::Const(n) => sym_const(n@) });

pub broadcast axiom fn sym_struct_name(n: Seq<char>)
    ensures sym_name(#[trigger] sym_struct(n)) == n, sym_kind(sym_struct(n)) == 0;

pub broadcast axiom fn sym_iface_name(n: Seq<char>)
    ensures sym_name(#[trigger] sym_iface(n)) == n, sym_kind(sym_iface(n)) == 1;

pub broadcast axiom fn sym_const_name(n: Seq<char>)
    ensures sym_name(#[trigger] sym_const(n)) == n, sym_kind(sym_const(n)) == 2;

/// a key is one of the three
pub broadcast axiom fn sym_kinds(k: Key)
    ensures #[trigger] sym_kind(k) == 0 ==> k == sym_struct(sym_name(k)), sym_kind(k) == 1 ==> k == sym_iface(sym_name(k)), sym_kind(k) == 2 ==> k == sym_const(sym_name(k)), 0 <= sym_kind(k) <= 2;

pub type Symbols = Map<Key, (Rc<Node>, PathBuf)>;

/// the top-level names of a table
pub open spec fn taken(m: Symbols, n: Seq<char>) -> bool { m.dom().contains(sym_struct(n)) || m.dom().contains(sym_const(n)) }

pub open spec fn top_name(n: Node) -> Option<Seq<char>> {
    match n { Node::Struct(s) => Some(s.ident.ident@), Node::Interface(i) => Some(i.ident.ident@), Node::Const(c) => Some(c.ident.ident@), Node::Include(_) => None }
}

pub open spec fn tn(d: Seq<Rc<Node>>, i: int) -> Option<Seq<char>> { top_name(*d[i]) }

/// every symbol is what its kind and name say
pub open spec fn sound(m: Symbols) -> bool {
    &&& forall|n: Seq<char>| m.dom().contains(#[trigger] sym_struct(n)) ==> is_struct(*m[sym_struct(n)].0, n)
    &&& forall|n: Seq<char>| m.dom().contains(#[trigger] sym_iface(n)) ==> is_iface(*m[sym_iface(n)].0, n) && m.dom().contains(sym_struct(n))
}

pub open spec fn is_struct(d: Node, n: Seq<char>) -> bool { d is Struct && d->Struct_0.ident.ident@ == n }

pub open spec fn is_iface(d: Node, n: Seq<char>) -> bool { d is Interface && d->Interface_0.ident.ident@ == n }

/// C09, C10: no name is declared twice, nor one that is already there
pub open spec fn fresh(m: Symbols, d: Seq<Rc<Node>>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k && (#[trigger] tn(d, i)) is Some ==> !taken(m, tn(d, i)->Some_0)
    &&& forall|i: int, j: int| 0 <= i < j < k && (#[trigger] tn(d, i)) is Some ==> tn(d, i) != (#[trigger] tn(d, j))
}

/// what node d adds under its name
pub open spec fn declares(m: Symbols, d: Node) -> bool {
    match d {
        Node::Include(_) => true,
        Node::Struct(s) => m.dom().contains(sym_struct(s.ident.ident@)) && *m[sym_struct(s.ident.ident@)].0 == d,
        Node::Interface(i) => m.dom().contains(sym_struct(i.ident.ident@)) && an_object(*m[sym_struct(i.ident.ident@)].0, i.ident.ident@) && m.dom().contains(sym_iface(i.ident.ident@)) && *m[sym_iface(i.ident.ident@)].0 == d,
        Node::Const(c) => m.dom().contains(sym_const(c.ident.ident@)) && *m[sym_const(c.ident.ident@)].0 == d,
    }
}

/// an interface can be the type of a struct's field
pub open spec fn an_object(d: Node, n: Seq<char>) -> bool {
    is_struct(d, n) && d->Struct_0.fields@.len() > 0 && forall|i: int| 0 <= i < d->Struct_0.fields@.len() ==> (#[trigger] d->Struct_0.fields@[i]).val.0 is Primitive
}

/// the keys node d adds
pub open spec fn gives(d: Node, x: Key) -> bool {
    match d {
        Node::Include(_) => false,
        Node::Struct(s) => x == sym_struct(s.ident.ident@),
        Node::Interface(i) => x == sym_struct(i.ident.ident@) || x == sym_iface(i.ident.ident@),
        Node::Const(c) => x == sym_const(c.ident.ident@),
    }
}

/// C12: the table holds what the nodes declare, next to what it held before, and nothing else
pub open spec fn gathered(m: Symbols, o: Symbols, d: Seq<Rc<Node>>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> declares(m, #[trigger] *d[i])
    &&& forall|x: Key| #[trigger] o.dom().contains(x) ==> m.dom().contains(x) && m[x] == o[x]
    &&& forall|x: Key| #[trigger] m.dom().contains(x) ==> o.dom().contains(x) || exists|i: int| 0 <= i < k && gives(#[trigger] *d[i], x)
}

/// a name is taken by what gives its key
proof fn given_name(d: Seq<Rc<Node>>, i: int, n: Seq<char>)
    requires gives(*d[i], sym_struct(n)) || gives(*d[i], sym_const(n)),
    ensures tn(d, i) == Some(n),
{
    broadcast use {sym_struct_name, sym_iface_name, sym_const_name};
}

proof fn next_name(m: Symbols, o: Symbols, d: Seq<Rc<Node>>, k: int)
    requires 0 <= k < d.len(), sound(m), fresh(o, d, k), gathered(m, o, d, k),
    ensures tn(d, k) is Some && taken(m, tn(d, k)->Some_0) ==> !fresh(o, d, d.len() as int),
        !(tn(d, k) is Some && taken(m, tn(d, k)->Some_0)) ==> fresh(o, d, k + 1),
{
    broadcast use {sym_key, sym_struct_name, sym_iface_name, sym_const_name};
        if tn(d, k) is Some {
            let n = tn(d, k)->Some_0;
            if taken(m, n) {
                if !taken(o, n) {
                    let x = if m.dom().contains(sym_struct(n)) { sym_struct(n) } else { sym_const(n) };
                    assert(!o.dom().contains(x) && m.dom().contains(x));
                    let i = choose|i: int| 0 <= i < k && gives(#[trigger] *d[i], x);
                    given_name(d, i, n);
                    assert(tn(d, i) == tn(d, k));
                }
                assert(!fresh(o, d, d.len() as int));
            } else {
                assert(!taken(o, n));
                assert forall|i: int| 0 <= i < k && (#[trigger] tn(d, i)) is Some implies tn(d, i) != tn(d, k) by { assert(declares(m, *d[i])); }
            }
        }
}

proof fn name_added(m: Symbols, h: Symbols, o: Symbols, d: Seq<Rc<Node>>, k: int)
    requires 0 <= k < d.len(), gathered(m, o, d, k), declares(h, *d[k]),
        forall|x: Key| #[trigger] m.dom().contains(x) ==> h.dom().contains(x) && h[x] == m[x],
        forall|x: Key| #[trigger] h.dom().contains(x) ==> m.dom().contains(x) || gives(*d[k], x),
    ensures gathered(h, o, d, k + 1),
{
    broadcast use {sym_key, sym_struct_name, sym_iface_name, sym_const_name};
        assert forall|x: Key| #[trigger] m.dom().contains(x) implies h.dom().contains(x) && h[x] == m[x] by {}
        assert forall|i: int| 0 <= i < k + 1 implies declares(h, #[trigger] *d[i]) by { if i < k { assert(declares(m, *d[i])); } }
        assert forall|x: Key| #[trigger] h.dom().contains(x) implies o.dom().contains(x) || exists|i: int| 0 <= i < k + 1 && gives(#[trigger] *d[i], x) by {
            if m.dom().contains(x) {
                if !o.dom().contains(x) { let i = choose|i: int| 0 <= i < k && gives(#[trigger] *d[i], x); assert(gives(*d[i], x)); }
            } else { assert(gives(*d[k], x)); }
        }
}

// ---------------------------------------------------------------- the code

/*@ idlc_ast/src/ast.rs | fn Ident::new_without_span |
ret r
spec { ensures r.ident == ident }
@*/

/*@ idlc_ast/src/ast.rs | fn Struct::new_object |
ret r
spec { ensures r.ident == *ident, r.fields@.len() > 0, forall|i: int| 0 <= i < r.fields@.len() ==> (#[trigger] r.fields@[i]).val.0 is Primitive }
@*/

/*@ idlc_ast_passes/src/idl_store.rs | fn IDLStore::gather_symbols_from_ast | assert_eq,opt_or_else,rc_as_ref
spec {
    requires
        sound(old(map)@),
        !fresh(old(map)@, ast.nodes@, ast.nodes@.len() as int) ==> may_refuse(),
    ensures
        sound(final(map)@),
        fresh(old(map)@, ast.nodes@, ast.nodes@.len() as int),
        gathered(final(map)@, old(map)@, ast.nodes@, ast.nodes@.len() as int),
}
start {
    broadcast use {sym_key, sym_struct_name, sym_iface_name, sym_const_name};
    let ghost o = map@;
    let ghost d = ast.nodes@;
}
loop 0 {
    invariant
        d == ast.nodes@,
        it0.seq().len() == d.len(),
        forall|j: int| 0 <= j < d.len() ==> *(#[trigger] it0.seq()[j]) == d[j],
        sound(map@),
        fresh(o, d, it0.index()),
        gathered(map@, o, d, it0.index()),
        !fresh(o, d, d.len() as int) ==> may_refuse(),
}
body 0 {
    broadcast use {sym_key, sym_struct_name, sym_iface_name, sym_const_name};
    let ghost k = it0.index();
    let ghost m = map@;
    proof {
        assert(*it0.seq()[k] == d[k]);
        next_name(m, o, d, k);
    }
}
end 0 {
    proof {
        name_added(m, map@, o, d, k);
    }
}
@*/

}
