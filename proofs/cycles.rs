//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
//@include keys
//@include graph_spec
//@contracts graph_code graph
//@include dfs_spec
//@include string_keys
//@include chain_spec
//@include ast_structs
//@include ast_all
//@include store_spec
verus! {

// ---------------------------------------------------------------- specification

/// struct a has a field of type b
pub open spec fn made_of(s: Structs, a: Seq<char>, b: Seq<char>) -> bool {
    s.dom().contains(a) && exists|i: int| 0 <= i < s[a].fields.len() && field_is(#[trigger] s[a].fields@[i], b)
}

pub open spec fn field_is(f: StructField, b: Seq<char>) -> bool { f.val.0 is Custom && f.val.0->Custom_0.ident@ == b }

pub open spec fn derives(b: Bases, m: Seq<char>, n: Seq<char>) -> bool { b.dom().contains(m) && b[m] == Some(n) }

/// C09: what the pass refuses: a struct that holds itself, an interface that is its own ancestor
pub open spec fn struct_cycle(s: Structs) -> bool {
    exists|c: Seq<Seq<char>>| #[trigger] closes(c) && forall|i: int| 0 < i < c.len() ==> made_of(s, c[i - 1], #[trigger] c[i])
}

pub open spec fn base_cycle(b: Bases) -> bool {
    exists|c: Seq<Seq<char>>| #[trigger] closes(c) && forall|i: int| 0 < i < c.len() ==> derives(b, c[i - 1], #[trigger] c[i])
}

pub open spec fn closes(c: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < c.len() - 1 && c[i] == c.last() }

/// names of nothing
pub open spec fn dangling(s: Structs, f: Ifaces) -> bool {
    ||| exists|a: Seq<char>, b: Seq<char>| #[trigger] made_of(s, a, b) && !s.dom().contains(b)
    ||| exists|a: Seq<char>, b: Seq<char>| #[trigger] derives(bases_of(f), a, b) && !f.dom().contains(b)
}

pub open spec fn struct_edges(s: Structs) -> Edges { |a: Key, b: Key| made_of(s, sname(a), sname(b)) }

pub open spec fn base_edges(f: Ifaces) -> Edges { |a: Key, b: Key| derives(bases_of(f), sname(a), sname(b)) }

pub open spec fn snames(s: Structs) -> Set<Key> { s.dom().map(|n: Seq<char>| skey(n)) }

proof fn declared(s: Structs, n: Seq<char>)
    ensures snames(s).contains(skey(n)) <==> s.dom().contains(n),
{
    broadcast use skey_sname;
    broadcast use vstd::set_lib::group_set_lib_default, vstd::set::group_set_lemmas;
    if s.dom().contains(n) { assert(snames(s).contains(skey(n))); }
    if snames(s).contains(skey(n)) { let m = choose|m: Seq<char>| s.dom().contains(m) && skey(m) == skey(n); assert(sname(skey(m)) == m); assert(sname(skey(n)) == n); }
}

// ---------------------------------------------------------------- the code

#[verifier::external_body]
pub struct IDLStore { m: std::collections::HashMap<String, String> }

impl IDLStore {
    pub uninterp spec fn structs(&self) -> Structs;
    pub uninterp spec fn ifaces(&self) -> Ifaces;

    #[verifier::external_body]
    pub fn struct_lookup(&self, name: &Ident) -> (r: Option<(Rc<Struct>, PathBuf)>)
        ensures r is Some <==> self.structs().dom().contains(name.ident@),
            r is Some ==> *(r->Some_0).0 == self.structs()[name.ident@],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn iface_lookup(&self, name: &Ident) -> (r: Option<Rc<Interface>>)
        ensures r is Some <==> self.ifaces().dom().contains(name.ident@),
            r is Some ==> *(r->Some_0) == self.ifaces()[name.ident@],
    { unimplemented!() }
}

pub enum Error { CyclicalInclude(Vec<String>) }

/*@ idlc_ast_passes/src/cycles.rs | struct Cycles | @*/

impl<'ast> Cycles<'ast> {
    pub open spec fn s(&self) -> Structs { self.idl_store.structs() }
    pub open spec fn f(&self) -> Ifaces { self.idl_store.ifaces() }
}

/*@ idlc_ast_passes/src/cycles.rs | fn Cycles::new |
ret r
spec {
    ensures *r.idl_store == *idl_store, r.struct_graph.nodes@ == Map::<Key, HashSet<String>>::empty(), r.iface_graph.nodes@ == Map::<Key, HashSet<String>>::empty(),
        r.visited_structs@ == Set::<Key>::empty(), r.visited_ifaces@ == Set::<Key>::empty(),
}
@*/


/*@ idlc_ast_passes/src/cycles.rs | fn Cycles::visit_struct_recurse |
spec {
    requires
        store_ok(old(self).s(), old(self).f()),
        dangling(old(self).s(), old(self).f()) ==> may_refuse(),
        old(self).s().dom().contains(raw_struct.ident.ident@), old(self).s()[raw_struct.ident.ident@] == *raw_struct,
        state(old(self).struct_graph.nodes@, old(self).visited_structs@, struct_edges(old(self).s()), snames(old(self).s()), skey(raw_struct.ident.ident@)),
    ensures
        final(self).idl_store == old(self).idl_store, final(self).iface_graph == old(self).iface_graph, final(self).visited_ifaces == old(self).visited_ifaces,
        old(self).visited_structs@.subset_of(final(self).visited_structs@), final(self).visited_structs@.contains(skey(raw_struct.ident.ident@)),
        grown(old(self).struct_graph.nodes@, final(self).struct_graph.nodes@),
        state(final(self).struct_graph.nodes@, final(self).visited_structs@, struct_edges(old(self).s()), snames(old(self).s()), skey(raw_struct.ident.ident@)),
        all_done(final(self).struct_graph.nodes@, final(self).visited_structs@, struct_edges(old(self).s()), old(self).visited_structs@),
    decreases snames(old(self).s()).difference(old(self).visited_structs@).len()
}
start {
    broadcast use {string_key, skey_sname, sname_skey};
    let ghost name = raw_struct.ident.ident@;
    let ghost me = skey(name);
    let ghost s = self.s();
    let ghost f = self.f();
    let ghost e = struct_edges(s);
    let ghost v0 = self.visited_structs@;
    let ghost g0 = self.struct_graph.nodes@;
    proof { declared(s, name); }
}
body 0 {
    broadcast use {string_key, skey_sname, sname_skey};
    let ghost n = it0.index();
    let ghost g1 = self.struct_graph.nodes@;
    let ghost v1 = self.visited_structs@;
    proof {
        assert(*it0.seq()[n] == raw_struct.fields@[n]);
        less_left(snames(s), v0, v1, me);
        if raw_struct.fields@[n].val.0 is Custom {
            let c = raw_struct.fields@[n].val.0->Custom_0.ident@;
            assert(field_is(s[name].fields@[n], c));
            assert(made_of(s, name, c));
            assert(e(me, skey(c)));
            declared(s, c);
            assert forall|h: Succ<String>| #[trigger] same_but(h, g1, me) && succ(h, me) == succ(g1, me).insert(skey(c)) implies state(h, v1, e, snames(s), skey(c)) && grown(g1, h) by {
                one_more(g1, h, v1, e, snames(s), me, skey(c));
            }
            assert forall|h: Succ<String>, h2: Succ<String>| #[trigger] same_but(h, g1, me) && succ(h, me) == succ(g1, me).insert(skey(c)) && #[trigger] grown(h, h2)
                implies grown(g1, h2) && succ(h2, me).contains(skey(c)) by {
                one_more(g1, h, v1, e, snames(s), me, skey(c));
                grown_on(g1, h, h2);
                assert(succ(h, me).subset_of(succ(h2, me)));
            }
            assert forall|h: Succ<String>, w: Set<Key>| grown(g1, h) && v1.subset_of(w) && #[trigger] all_done(h, w, e, v1) implies all_done(h, w, e, v0.insert(me)) by {
                still_done(g1, h, v1, w, e, v0.insert(me));
            }
        }
    }
}
end 0 {
    proof {
        let g2 = self.struct_graph.nodes@;
        assert(grown(g1, g2));
        grown_on(g0, g1, g2);
        assert forall|j: int| 0 <= j < n + 1 && (#[trigger] raw_struct.fields@[j]).val.0 is Custom implies ({
            let k = skey(raw_struct.fields@[j].val.0->Custom_0.ident@);
            succ(g2, me).contains(k) && self.visited_structs@.contains(k)
        }) by {
            let k = skey(raw_struct.fields@[j].val.0->Custom_0.ident@);
            if j < n { assert(succ(g1, me).contains(k)); assert(succ(g1, me).subset_of(succ(g2, me))); }
        }
    }
}
loop 0 {
    invariant
        self.idl_store == old(self).idl_store, self.iface_graph == old(self).iface_graph, self.visited_ifaces == old(self).visited_ifaces,
        s == self.s(), f == self.f(), e == struct_edges(s), name == raw_struct.ident.ident@, me == skey(name), s.dom().contains(name), s[name] == *raw_struct, snames(s).contains(me),
        store_ok(s, f), dangling(s, f) ==> may_refuse(),
        v0 == old(self).visited_structs@, g0 == old(self).struct_graph.nodes@, !v0.contains(me),
        it0.seq().len() == raw_struct.fields@.len(),
        forall|j: int| 0 <= j < raw_struct.fields@.len() ==> *(#[trigger] it0.seq()[j]) == raw_struct.fields@[j],
        v0.insert(me).subset_of(self.visited_structs@),
        grown(g0, self.struct_graph.nodes@),
        state(self.struct_graph.nodes@, self.visited_structs@, e, snames(s), me),
        all_done(self.struct_graph.nodes@, self.visited_structs@, e, v0.insert(me)),
        forall|j: int| 0 <= j < it0.index() && (#[trigger] raw_struct.fields@[j]).val.0 is Custom ==> {
            let k = skey(raw_struct.fields@[j].val.0->Custom_0.ident@);
            succ(self.struct_graph.nodes@, me).contains(k) && self.visited_structs@.contains(k)
        },
}
after 0 {
    proof {
        assert(done(self.struct_graph.nodes@, self.visited_structs@, e, me)) by {
            assert forall|j: Key| #[trigger] e(me, j) implies succ(self.struct_graph.nodes@, me).contains(j) && self.visited_structs@.contains(j) by {
                let n = sname(j);
                assert(skey(n) == j);
                assert(made_of(s, name, n));
                let i = choose|i: int| 0 <= i < s[name].fields.len() && field_is(#[trigger] s[name].fields@[i], n);
                assert(raw_struct.fields@[i].val.0 is Custom);
            }
        }
    }
}
@*/

pub open spec fn fnames(f: Ifaces) -> Set<Key> { f.dom().map(|n: Seq<char>| skey(n)) }

proof fn fdeclared(f: Ifaces, n: Seq<char>)
    ensures fnames(f).contains(skey(n)) <==> f.dom().contains(n),
{
    broadcast use skey_sname;
    broadcast use vstd::set_lib::group_set_lib_default, vstd::set::group_set_lemmas;
    if f.dom().contains(n) { assert(fnames(f).contains(skey(n))); }
    if fnames(f).contains(skey(n)) { let m = choose|m: Seq<char>| f.dom().contains(m) && skey(m) == skey(n); assert(sname(skey(m)) == m); assert(sname(skey(n)) == n); }
}

/*@ idlc_ast_passes/src/cycles.rs | fn Cycles::visit_iface_recurse | opt_unwrap
spec {
    requires
        store_ok(old(self).s(), old(self).f()),
        dangling(old(self).s(), old(self).f()) ==> may_refuse(),
        old(self).f().dom().contains(iface.ident.ident@), old(self).f()[iface.ident.ident@] == *iface,
        state(old(self).iface_graph.nodes@, old(self).visited_ifaces@, base_edges(old(self).f()), fnames(old(self).f()), skey(iface.ident.ident@)),
    ensures
        final(self).idl_store == old(self).idl_store, final(self).struct_graph == old(self).struct_graph, final(self).visited_structs == old(self).visited_structs,
        old(self).visited_ifaces@.subset_of(final(self).visited_ifaces@), final(self).visited_ifaces@.contains(skey(iface.ident.ident@)),
        grown(old(self).iface_graph.nodes@, final(self).iface_graph.nodes@),
        state(final(self).iface_graph.nodes@, final(self).visited_ifaces@, base_edges(old(self).f()), fnames(old(self).f()), skey(iface.ident.ident@)),
        all_done(final(self).iface_graph.nodes@, final(self).visited_ifaces@, base_edges(old(self).f()), old(self).visited_ifaces@),
    decreases fnames(old(self).f()).difference(old(self).visited_ifaces@).len()
}
start {
    broadcast use {string_key, skey_sname, sname_skey};
    let ghost name = iface.ident.ident@;
    let ghost me = skey(name);
    let ghost f = self.f();
    let ghost e = base_edges(f);
    let ghost v0 = self.visited_ifaces@;
    let ghost g0 = self.iface_graph.nodes@;
    let ghost all = fnames(f);
    proof {
        fdeclared(f, name);
        assert(sname(me) == name);
        assert(bases_of(f).dom().contains(name));
        if !v0.contains(me) { less_left(all, v0, v0.insert(me), me); }
        if bases_of(f)[name] is Some {
            let c = bases_of(f)[name]->Some_0;
            assert(derives(bases_of(f), name, c));
            assert(e(me, skey(c)));
            fdeclared(f, c);
            assert forall|h: Succ<String>| #[trigger] same_but(h, g0, me) && succ(h, me) == succ(g0, me).insert(skey(c)) && !v0.contains(me) implies state(h, v0.insert(me), e, all, skey(c)) && grown(g0, h) by {
                one_more(g0, h, v0.insert(me), e, all, me, skey(c));
            }
            assert forall|h: Succ<String>, h2: Succ<String>| #[trigger] same_but(h, g0, me) && succ(h, me) == succ(g0, me).insert(skey(c)) && #[trigger] grown(h, h2) && !v0.contains(me)
                implies grown(g0, h2) && succ(h2, me).contains(skey(c)) by {
                one_more(g0, h, v0.insert(me), e, all, me, skey(c));
                grown_on(g0, h, h2);
                assert(succ(h, me).subset_of(succ(h2, me)));
            }
        }
    }
}
tail {
    proof {
        let g = self.iface_graph.nodes@;
        let v = self.visited_ifaces@;
        if !v0.contains(me) {
            assert(grown(g0, g));
            assert forall|j: Key| #[trigger] e(me, j) implies succ(g, me).contains(j) && v.contains(j) by {
                assert(skey(sname(j)) == j);
                assert(bases_of(f)[name] == Some(sname(j)));
            }
            assert(done(g, v, e, me));
            assert(all_done(g, v, e, v0));
        }
    }
}
@*/

impl<'ast> Cycles<'ast> {
    #[verifier::opaque]
    pub open spec fn inv(&self) -> bool {
        &&& store_ok(self.s(), self.f())
        &&& dangling(self.s(), self.f()) ==> may_refuse()
        &&& within(self.struct_graph.nodes@, self.visited_structs@, struct_edges(self.s()), snames(self.s()))
        &&& within(self.iface_graph.nodes@, self.visited_ifaces@, base_edges(self.f()), fnames(self.f()))
    }

    pub open spec fn kept(&self, new: &Self) -> bool {
        &&& self.idl_store == new.idl_store
        &&& self.struct_graph.nodes@.dom().subset_of(new.struct_graph.nodes@.dom())
        &&& self.iface_graph.nodes@.dom().subset_of(new.iface_graph.nodes@.dom())
    }
}

/*@ idlc_ast_passes/src/cycles.rs | impl Visitor Cycles | inherit=idlc_ast/src/visitor.rs#Visitor,only=visit_root_ident:visit_include:visit_const:visit_ident:visit_primitive_ty:visit_expr
sub root_ident: &'ast std::path::Path => root_ident: &'ast PathBuf
sub include: &'ast std::path::Path => include: &'ast PathBuf
in visit_interface spec {
    requires old(self).inv(), old(self).f().dom().contains(iface.ident.ident@), old(self).f()[iface.ident.ident@] == *iface,
    ensures final(self).inv(), old(self).kept(final(self)), final(self).iface_graph.nodes@.dom().contains(skey(iface.ident.ident@)),
}
in visit_interface start {
    broadcast use {string_key, skey_sname, sname_skey};
    let ghost me = skey(iface.ident.ident@);
    proof {
        reveal(Cycles::inv);
        let e = base_edges(self.f());
        let all = fnames(self.f());
        assert forall|g: Succ<String>, v: Set<Key>| #[trigger] state(g, v, e, all, me) && v.contains(me) && all_done(g, v, e, self.visited_ifaces@) && grown(self.iface_graph.nodes@, g) && self.visited_ifaces@.subset_of(v) implies within(g, v, e, all) by {
            still_done(self.iface_graph.nodes@, g, self.visited_ifaces@, v, e, Set::<Key>::empty());
        }
        assert forall|g: Succ<String>, h: Succ<String>, v: Set<Key>| #[trigger] within(g, v, e, all) && #[trigger] same_but(h, g, me) && succ(h, me) == succ(g, me) && v.contains(me) implies within(h, v, e, all) by {
            node_added(g, h, v, e, all, me);
        }
    }
}
in visit_struct spec {
    requires old(self).inv(), old(self).s().dom().contains(raw_struct.ident.ident@), old(self).s()[raw_struct.ident.ident@] == *raw_struct,
    ensures final(self).inv(), old(self).kept(final(self)), final(self).struct_graph.nodes@.dom().contains(skey(raw_struct.ident.ident@)),
}
in visit_struct start {
    broadcast use {string_key, skey_sname, sname_skey};
    let ghost me = skey(raw_struct.ident.ident@);
    proof {
        reveal(Cycles::inv);
        let e = struct_edges(self.s());
        let all = snames(self.s());
        assert forall|g: Succ<String>, v: Set<Key>| #[trigger] state(g, v, e, all, me) && v.contains(me) && all_done(g, v, e, self.visited_structs@) && grown(self.struct_graph.nodes@, g) && self.visited_structs@.subset_of(v) implies within(g, v, e, all) by {
            still_done(self.struct_graph.nodes@, g, self.visited_structs@, v, e, Set::<Key>::empty());
        }
        assert forall|g: Succ<String>, h: Succ<String>, v: Set<Key>| #[trigger] within(g, v, e, all) && #[trigger] same_but(h, g, me) && succ(h, me) == succ(g, me) && v.contains(me) implies within(h, v, e, all) by {
            node_added(g, h, v, e, all, me);
        }
    }
}
in visit_root_ident spec { ensures *final(self) == *old(self), }
in visit_include spec { ensures *final(self) == *old(self), }
in visit_const spec { ensures *final(self) == *old(self), }
in visit_ident spec { ensures *final(self) == *old(self), }
in visit_primitive_ty spec { ensures *final(self) == *old(self), }
in visit_expr spec { ensures *final(self) == *old(self), }
@*/

/*@ idlc_ast/src/visitor.rs | fn walk_const |
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut Cycles<'a>
spec { ensures *final(visitor) == *old(visitor), }
@*/

pub open spec fn walked(n: Seq<Rc<Node>>, k: int, c: Cycles) -> bool {
    &&& forall|j: int| 0 <= j < k && (#[trigger] *n[j]) is Struct ==> c.struct_graph.nodes@.dom().contains(skey((*n[j])->Struct_0.ident.ident@))
    &&& forall|j: int| 0 <= j < k && (#[trigger] *n[j]) is Interface ==> c.iface_graph.nodes@.dom().contains(skey((*n[j])->Interface_0.ident.ident@))
}

/*@ idlc_ast/src/visitor.rs | fn walk_all | rc_as_ref
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut Cycles<'a>
sub ast.tag.as_path() => &ast.tag
spec {
    requires old(visitor).inv(), ast_in_store(ast.nodes@, old(visitor).s(), old(visitor).f()),
    ensures final(visitor).inv(), final(visitor).idl_store == old(visitor).idl_store, walked(ast.nodes@, ast.nodes@.len() as int, *final(visitor)),
}
loop 0 {
    invariant
        visitor.inv(), visitor.idl_store == old(visitor).idl_store,
        ast_in_store(ast.nodes@, visitor.s(), visitor.f()),
        it0.seq().len() == ast.nodes@.len(),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> *(#[trigger] it0.seq()[j]) == ast.nodes@[j],
        walked(ast.nodes@, it0.index(), *visitor),
}
body 0 {
    proof { assert(*it0.seq()[it0.index()] == ast.nodes@[it0.index()]); }
}
@*/

pub open spec fn snames_of(c: Seq<String>) -> Seq<Seq<char>> { c.map_values(|x: String| x@) }

/// a cycle of the graph is a cycle of the declarations
proof fn real_cycle(g: Succ<String>, e: Edges, c: Seq<String>)
    requires is_cycle(g, keys(c)), real(g, e),
    ensures closes(snames_of(c)), forall|i: int| 0 < i < c.len() ==> e(skey(snames_of(c)[i - 1]), skey(#[trigger] snames_of(c)[i])),
{
    broadcast use {string_key, skey_sname, sname_skey};
    let k = keys(c);
    let n = snames_of(c);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] n[i] == sname(k[i]) by {}
    let i = choose|i: int| 0 <= i < k.len() - 1 && k[i] == k.last();
    assert(n[i] == n.last());
    assert forall|i: int| 0 < i < c.len() implies e(skey(n[i - 1]), skey(#[trigger] n[i])) by { assert(succ(g, k[i - 1]).contains(k[i])); }
}

/// what an order of everything declared says
proof fn order_declared(g: Succ<String>, v: Set<Key>, e: Edges, all: Set<Key>, o: Seq<String>)
    requires within(g, v, e, all), topological(g, keys(o)), forall|k: Key| #[trigger] keys(o).contains(k) ==> universe(g).contains(k),
    ensures
        forall|i: int| 0 <= i < o.len() ==> all.contains(skey((#[trigger] o[i])@)),
        forall|i: int, n: Seq<char>| 0 <= i < o.len() && #[trigger] e(skey(o[i]@), skey(n)) ==> exists|j: int| 0 <= j < i && (#[trigger] o[j])@ == n,
{
    broadcast use {string_key, skey_sname, sname_skey};
    broadcast use vstd::set_lib::group_set_lib_default, vstd::set::group_set_lemmas;
    let q = keys(o);
    assert forall|i: int| 0 <= i < o.len() implies v.contains(skey((#[trigger] o[i])@)) by {
        assert(q[i] == skey(o[i]@));
        assert(q.contains(q[i]));
        let k = q[i];
        if !g.dom().contains(k) {
            let t = g.dom().map(|k: Key| g[k]@);
            let x = choose|x: Set<Key>| t.contains(x) && x.contains(k);
            let m = choose|m: Key| g.dom().contains(m) && g[m]@ == x;
            assert(succ(g, m).contains(k));
        }
    }
    assert forall|i: int, n: Seq<char>| 0 <= i < o.len() && #[trigger] e(skey(o[i]@), skey(n)) implies exists|j: int| 0 <= j < i && (#[trigger] o[j])@ == n by {
        let k = skey(o[i]@);
        assert(q[i] == k);
        assert(v.contains(k));
        assert(done(g, v, e, k));
        assert(sname(k) == o[i]@);
        assert(succ(g, q[i]).contains(skey(n)));
        let j = choose|j: int| 0 <= j < i && #[trigger] q[j] == skey(n);
        assert(q[j] == skey(o[j]@));
        assert(sname(q[j]) == o[j]@);
    }
}

proof fn order_ends(f: Ifaces, o: Seq<String>, i: int)
    requires 0 <= i < o.len(),
        forall|i: int, n: Seq<char>| 0 <= i < o.len() && #[trigger] base_edges(f)(skey(o[i]@), skey(n)) ==> exists|j: int| 0 <= j < i && (#[trigger] o[j])@ == n,
    ensures ends(bases_of(f), o[i]@),
    decreases i
{
    broadcast use {skey_sname};
    let b = bases_of(f);
    let a = o[i]@;
    if b.dom().contains(a) && b[a] is Some {
        let n = b[a]->Some_0;
        assert(base_edges(f)(skey(a), skey(n)));
        let j = choose|j: int| 0 <= j < i && (#[trigger] o[j])@ == n;
        order_ends(f, o, j);
        let k = choose|k: nat| #[trigger] chain(b, n, k);
        assert(chain(b, a, k + 1));
    } else {
        assert(chain(b, a, 0));
    }
}

/// C09: an interface whose chain of ancestors does not end is refused, a struct order is right, nothing else is refused
pub open spec fn bases_end(n: Seq<Rc<Node>>, f: Ifaces) -> bool {
    forall|j: int| 0 <= j < n.len() && (#[trigger] *n[j]) is Interface ==> ends(bases_of(f), (*n[j])->Interface_0.ident.ident@)
}

pub open spec fn all_in(n: Seq<Rc<Node>>, o: Seq<String>) -> bool {
    forall|j: int| 0 <= j < n.len() && (#[trigger] *n[j]) is Struct ==> exists|k: int| 0 <= k < o.len() && (#[trigger] o[k])@ == (*n[j])->Struct_0.ident.ident@
}

pub open spec fn cycle_refused(r: Result<Vec<String>, Error>, s: Structs, f: Ifaces) -> bool {
    r is Err ==> struct_cycle(s) || base_cycle(bases_of(f))
}

/// the interfaces are in order
proof fn ifaces_ordered(c: Cycles, n: Seq<Rc<Node>>, o: Seq<String>)
    requires c.inv(), walked(n, n.len() as int, c), topological(c.iface_graph.nodes@, keys(o)),
        forall|k: Key| #[trigger] keys(o).contains(k) ==> universe(c.iface_graph.nodes@).contains(k),
        forall|k: Key| c.iface_graph.nodes@.dom().contains(k) ==> #[trigger] keys(o).contains(k),
    ensures bases_end(n, c.f()),
{
    broadcast use {string_key, skey_sname, sname_skey};
    reveal(Cycles::inv);
    order_declared(c.iface_graph.nodes@, c.visited_ifaces@, base_edges(c.f()), fnames(c.f()), o);
    assert forall|j: int| 0 <= j < n.len() && (#[trigger] *n[j]) is Interface implies ends(bases_of(c.f()), (*n[j])->Interface_0.ident.ident@) by {
        let k = skey((*n[j])->Interface_0.ident.ident@);
        assert(keys(o).contains(k));
        let i = choose|i: int| 0 <= i < keys(o).len() && keys(o)[i] == k;
        assert(sname(skey(o[i]@)) == o[i]@);
        order_ends(c.f(), o, i);
    }
}

proof fn structs_ordered(c: Cycles, n: Seq<Rc<Node>>, o: Seq<String>)
    requires c.inv(), walked(n, n.len() as int, c), topological(c.struct_graph.nodes@, keys(o)),
        forall|k: Key| #[trigger] keys(o).contains(k) ==> universe(c.struct_graph.nodes@).contains(k),
        forall|k: Key| c.struct_graph.nodes@.dom().contains(k) ==> #[trigger] keys(o).contains(k),
    ensures ordered(c.s(), o), all_in(n, o),
{
    broadcast use {string_key, skey_sname, sname_skey};
    reveal(Cycles::inv);
    let s = c.s();
    order_declared(c.struct_graph.nodes@, c.visited_structs@, struct_edges(s), snames(s), o);
    assert forall|k: int| 0 <= k < o.len() implies {
        &&& s.dom().contains(#[trigger] o[k]@)
        &&& s[o[k]@].fields@.len() > 0
        &&& forall|i: int| 0 <= i < s[o[k]@].fields@.len() ==> {
            let ty = #[trigger] s[o[k]@].fields@[i].val.0;
            &&& !(ty is UntypedBuffer)
            &&& ty is Custom ==> exists|j: int| 0 <= j < k && #[trigger] o[j]@ == ty->Custom_0.ident@
        }
    } by {
        declared(s, o[k]@);
        assert forall|i: int| 0 <= i < s[o[k]@].fields@.len() implies {
            let ty = #[trigger] s[o[k]@].fields@[i].val.0;
            &&& !(ty is UntypedBuffer)
            &&& ty is Custom ==> exists|j: int| 0 <= j < k && #[trigger] o[j]@ == ty->Custom_0.ident@
        } by {
            let f = s[o[k]@].fields@[i];
            if f.val.0 is Custom {
                assert(field_is(f, f.val.0->Custom_0.ident@));
                assert(struct_edges(s)(skey(o[k]@), skey(f.val.0->Custom_0.ident@)));
            }
        }
    }
    assert forall|j: int| 0 <= j < n.len() && (#[trigger] *n[j]) is Struct implies exists|k: int| 0 <= k < o.len() && (#[trigger] o[k])@ == (*n[j])->Struct_0.ident.ident@ by {
        let x = skey((*n[j])->Struct_0.ident.ident@);
        assert(keys(o).contains(x));
        let i = choose|i: int| 0 <= i < keys(o).len() && keys(o)[i] == x;
        assert(sname(skey(o[i]@)) == o[i]@);
    }
}

proof fn start_inv(c: Cycles)
    requires store_ok(c.s(), c.f()), dangling(c.s(), c.f()) ==> may_refuse(),
        c.struct_graph.nodes@ == Map::<Key, HashSet<String>>::empty(), c.iface_graph.nodes@ == Map::<Key, HashSet<String>>::empty(),
        c.visited_structs@ == Set::<Key>::empty(), c.visited_ifaces@ == Set::<Key>::empty(),
    ensures c.inv(),
{
    reveal(Cycles::inv);
    empty_within::<String>(struct_edges(c.s()), snames(c.s()));
    empty_within::<String>(base_edges(c.f()), fnames(c.f()));
}

/*@ idlc_ast_passes/src/cycles.rs | fn CompilerPass/Cycles::run_pass | map_err_path
ret r
sub Self::Output => Vec<String>
spec {
    requires
        store_ok(old(self).s(), old(self).f()),
        dangling(old(self).s(), old(self).f()) ==> may_refuse(),
        // as `new` leaves it
        old(self).struct_graph.nodes@ == Map::<Key, HashSet<String>>::empty(), old(self).iface_graph.nodes@ == Map::<Key, HashSet<String>>::empty(),
        old(self).visited_structs@ == Set::<Key>::empty(), old(self).visited_ifaces@ == Set::<Key>::empty(),
        ast_in_store(ast.nodes@, old(self).s(), old(self).f()),
    ensures
        r is Ok ==> bases_end(ast.nodes@, old(self).f()),
        r is Ok ==> ordered(old(self).s(), (r->Ok_0)@),
        r is Ok ==> all_in(ast.nodes@, (r->Ok_0)@),
        cycle_refused(r, old(self).s(), old(self).f()),
}
start {
    broadcast use {skey_sname};
    let ghost s = self.s();
    let ghost f = self.f();
    proof {
        start_inv(*self);
        assert forall|c: Cycles, o: Seq<String>| #![trigger topological(c.iface_graph.nodes@, keys(o)), walked(ast.nodes@, ast.nodes@.len() as int, c)]
            c.inv() && c.f() == f && walked(ast.nodes@, ast.nodes@.len() as int, c) && topological(c.iface_graph.nodes@, keys(o))
            && (forall|k: Key| #[trigger] keys(o).contains(k) ==> universe(c.iface_graph.nodes@).contains(k))
            && (forall|k: Key| c.iface_graph.nodes@.dom().contains(k) ==> #[trigger] keys(o).contains(k)) implies bases_end(ast.nodes@, f) by {
            ifaces_ordered(c, ast.nodes@, o);
        }
        assert forall|c: Cycles, o: Seq<String>| #![trigger topological(c.struct_graph.nodes@, keys(o)), walked(ast.nodes@, ast.nodes@.len() as int, c)]
            c.inv() && c.s() == s && walked(ast.nodes@, ast.nodes@.len() as int, c) && topological(c.struct_graph.nodes@, keys(o))
            && (forall|k: Key| #[trigger] keys(o).contains(k) ==> universe(c.struct_graph.nodes@).contains(k))
            && (forall|k: Key| c.struct_graph.nodes@.dom().contains(k) ==> #[trigger] keys(o).contains(k)) implies ordered(s, o) && all_in(ast.nodes@, o) by {
            structs_ordered(c, ast.nodes@, o);
        }
        assert forall|c: Cycles, o: Seq<String>| #[trigger] c.inv() && c.f() == f && #[trigger] is_cycle(c.iface_graph.nodes@, keys(o)) implies base_cycle(bases_of(f)) by {
            reveal(Cycles::inv);
            real_cycle(c.iface_graph.nodes@, base_edges(f), o);
            let n = snames_of(o);
            assert(closes(n));
            assert forall|i: int| 0 < i < n.len() implies derives(bases_of(f), n[i - 1], #[trigger] n[i]) by { assert(base_edges(f)(skey(n[i - 1]), skey(n[i]))); }
        }
        assert forall|c: Cycles, o: Seq<String>| #[trigger] c.inv() && c.s() == s && #[trigger] is_cycle(c.struct_graph.nodes@, keys(o)) implies struct_cycle(s) by {
            reveal(Cycles::inv);
            real_cycle(c.struct_graph.nodes@, struct_edges(s), o);
            let n = snames_of(o);
            assert(closes(n));
            assert forall|i: int| 0 < i < n.len() implies made_of(s, n[i - 1], #[trigger] n[i]) by { assert(struct_edges(s)(skey(n[i - 1]), skey(n[i]))); }
        }
    }
}
@*/

}
fn main() {}
