//@include common
//@include ident
use std::num::NonZeroU16;
//@include keys
//@include graph_spec
//@contracts graph_code graph
//@include dfs_spec
//@include paths
//@include string_keys
//@include chain_spec
//@include ast_structs
//@include ast_all
//@include store_spec
//@include store_symbols
verus! {

// ---------------------------------------------------------------- specification

/// what the parser makes of a file; None: it cannot be read, or its text is refused
pub uninterp spec fn fs_nodes(k: Key, allow: bool) -> Option<Seq<Rc<Node>>>;

/// the files there are
pub uninterp spec fn fs_files() -> Set<Key>;

/// the file the compiler was given: any file
pub uninterp spec fn main_file() -> Key;

/// the grammar: an include names a path that ends in ".idl"
pub broadcast axiom fn parsed(k: Key, allow: bool)
    ensures #[trigger] fs_nodes(k, allow) is Some ==> fs_files().contains(k) && fs_parent(k) is Some
        && forall|i: int| 0 <= i < fs_nodes(k, allow)->Some_0.len() && (#[trigger] inc_at(fs_nodes(k, allow)->Some_0, i)) is Some ==> fs_parent(inc_at(fs_nodes(k, allow)->Some_0, i)->Some_0) is Some;

pub open spec fn inc_at(d: Seq<Rc<Node>>, i: int) -> Option<Key> { match *d[i] { Node::Include(p) => Some(p@), _ => None } }

/// C12: the first directory, in order, that has a file of the name
pub open spec fn first_match(inc: Seq<Key>, p: Key, i: int) -> Option<Key>
    decreases inc.len() - i
{
    if i < 0 || i >= inc.len() { None } else if fs_file(fs_join(inc[i], p)) { fs_canon(fs_join(inc[i], p)) } else { first_match(inc, p, i + 1) }
}

/// C12: a bare name is searched, a path with a directory part is relative to the including file
pub open spec fn resolve(inc: Seq<Key>, cur: Key, p: Key) -> Option<Key> {
    if bare(p) { first_match(inc, p, 0) } else { fs_canon(fs_join(fs_parent(cur)->Some_0, p)) }
}

pub struct Cfg { pub inc: Seq<Key>, pub allow: bool }

pub open spec fn nodes(c: Cfg, k: Key) -> Seq<Rc<Node>> { fs_nodes(k, c.allow)->Some_0 }

pub open spec fn readable(c: Cfg, k: Key) -> bool { fs_nodes(k, c.allow) is Some }

pub open spec fn leads(c: Cfg, a: Key, i: int) -> Option<Key> { resolve(c.inc, a, inc_at(nodes(c, a), i)->Some_0) }

pub open spec fn includes(c: Cfg, a: Key, i: int) -> bool { readable(c, a) && 0 <= i < nodes(c, a).len() && inc_at(nodes(c, a), i) is Some }

pub open spec fn edge(c: Cfg, a: Key, b: Key) -> bool { exists|i: int| #[trigger] includes(c, a, i) && leads(c, a, i) == Some(b) }

pub open spec fn edges(c: Cfg) -> Edges { |a: Key, b: Key| edge(c, a, b) }

pub open spec fn route(c: Cfg, p: Seq<Key>) -> bool { forall|i: int| 0 < i < p.len() ==> edge(c, p[i - 1], #[trigger] p[i]) }

/// the files the main file includes, directly or not, and itself
pub open spec fn reach(c: Cfg, k: Key) -> bool { exists|p: Seq<Key>| #[trigger] route(c, p) && p.len() > 0 && p[0] == main_file() && p.last() == k }

/// the includes of reachable files form a cycle
pub open spec fn include_cycle(c: Cfg) -> bool {
    exists|p: Seq<Key>| #[trigger] route(c, p) && p.len() > 0 && reach(c, p[0]) && exists|i: int| 0 <= i < p.len() - 1 && p[i] == p.last()
}

/// the reasons there are to refuse: an include of nothing, a file that is not well-formed, a name declared twice
pub open spec fn defect(c: Cfg) -> bool {
    ||| exists|a: Key| #[trigger] reach(c, a) && !readable(c, a)
    ||| exists|a: Key, i: int| #[trigger] includes(c, a, i) && reach(c, a) && leads(c, a, i) is None
    ||| exists|a: Key, b: Key, i: int, j: int| declares_at(c, a, i) && declares_at(c, b, j) && (a != b || i != j) && (#[trigger] name_at(c, a, i)) == (#[trigger] name_at(c, b, j))
}

pub open spec fn name_at(c: Cfg, a: Key, i: int) -> Option<Seq<char>> { tn(nodes(c, a), i) }

pub open spec fn declares_at(c: Cfg, a: Key, i: int) -> bool { reach(c, a) && readable(c, a) && 0 <= i < nodes(c, a).len() && name_at(c, a, i) is Some }

proof fn main_reached(c: Cfg)
    ensures reach(c, main_file()),
{
    assert(route(c, seq![main_file()]));
}

proof fn step(c: Cfg, a: Key, i: int)
    requires reach(c, a), includes(c, a, i), leads(c, a, i) is Some,
    ensures edge(c, a, leads(c, a, i)->Some_0), reach(c, leads(c, a, i)->Some_0),
{
    let b = leads(c, a, i)->Some_0;
    let p = choose|p: Seq<Key>| #[trigger] route(c, p) && p.len() > 0 && p[0] == main_file() && p.last() == a;
    let q = p.push(b);
    assert forall|i: int| 0 < i < q.len() implies edge(c, q[i - 1], #[trigger] q[i]) by { if i < p.len() { assert(edge(c, p[i - 1], p[i])); } }
    assert(route(c, q));
}

/// what the file system gives is canonical
proof fn first_canonical(inc: Seq<Key>, p: Key, i: int)
    ensures first_match(inc, p, i) is Some ==> fs_canon(first_match(inc, p, i)->Some_0) == first_match(inc, p, i),
    decreases inc.len() - i
{
    broadcast use canonical;
    if i < 0 || i >= inc.len() {} else if fs_file(fs_join(inc[i], p)) {} else { first_canonical(inc, p, i + 1); }
}

proof fn resolved_canonical(inc: Seq<Key>, cur: Key, p: Key)
    ensures resolve(inc, cur, p) is Some ==> fs_canon(resolve(inc, cur, p)->Some_0) == resolve(inc, cur, p),
{
    broadcast use canonical;
    first_canonical(inc, p, 0);
}

/// the structs (interfaces) of the table, by name
pub open spec fn structs_of(m: Symbols) -> Structs {
    Map::new(m.dom().filter(|k: Key| sym_kind(k) == 0).map(|k: Key| sym_name(k)), |n: Seq<char>| (*m[sym_struct(n)].0)->Struct_0)
}

pub open spec fn ifaces_of(m: Symbols) -> Ifaces {
    Map::new(m.dom().filter(|k: Key| sym_kind(k) == 1).map(|k: Key| sym_name(k)), |n: Seq<char>| (*m[sym_iface(n)].0)->Interface_0)
}

proof fn tables(m: Symbols, n: Seq<char>)
    ensures structs_of(m).dom().contains(n) <==> m.dom().contains(sym_struct(n)), ifaces_of(m).dom().contains(n) <==> m.dom().contains(sym_iface(n)),
{
    broadcast use {sym_struct_name, sym_iface_name, sym_const_name, sym_kinds};
    let a = m.dom().filter(|k: Key| sym_kind(k) == 0);
    let b = m.dom().filter(|k: Key| sym_kind(k) == 1);
    if m.dom().contains(sym_struct(n)) { assert(a.contains(sym_struct(n))); assert(a.map(|k: Key| sym_name(k)).contains(n)); }
    if m.dom().contains(sym_iface(n)) { assert(b.contains(sym_iface(n))); assert(b.map(|k: Key| sym_name(k)).contains(n)); }
    if a.map(|k: Key| sym_name(k)).contains(n) { let k = choose|k: Key| a.contains(k) && sym_name(k) == n; assert(k == sym_struct(n)); }
    if b.map(|k: Key| sym_name(k)).contains(n) { let k = choose|k: Key| b.contains(k) && sym_name(k) == n; assert(k == sym_iface(n)); }
}

// ---------------------------------------------------------------- the code

pub struct RefCell<T> { pub v: T }

impl<T> RefCell<T> {
    pub fn new(v: T) -> (r: Self)
        ensures r.v == v,
    { RefCell { v } }

    pub fn borrow(&self) -> (r: &T)
        ensures *r == self.v,
    { &self.v }

    pub fn borrow_mut(&mut self) -> (r: &mut T)
        ensures *r == old(self).v, final(self).v == *final(r),
    { &mut self.v }
}

pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    where T: std::clone::Clone,
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]),
;

impl Clone for Ast {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r.nodes@ == self.nodes@, r.tag@ == self.tag@,
    { unimplemented!() }
}

/// reading and parsing, C16 and the grammar checks of C09 and C10 are about it
#[verifier::external_body]
pub fn from_file(path: PathBuf, allow_undefined_behavior: bool) -> (r: Result<Ast, IoError>)
    ensures match r {
        Ok(a) => fs_nodes(path@, allow_undefined_behavior) == Some(a.nodes@) && a.tag@ == path@,
        Err(_) => fs_nodes(path@, allow_undefined_behavior) is None,
    },
{ unimplemented!() }

pub enum Error { CyclicalInclude(Vec<String>) }

/*@ idlc_ast_passes/src/idl_store.rs | struct IDLStore | @*/

impl IDLStore {
    pub open spec fn cfg(&self) -> Cfg { Cfg { inc: keys(self.include_paths@), allow: self.allow_undefined_behavior } }

    pub open spec fn loaded(&self) -> Map<Key, Rc<Ast>> { self.ast_store.v@ }

    pub open spec fn table(&self) -> Symbols { self.symbols.v@ }

    /// what is loaded is reachable, and the table holds what it declares, no more and no less
    #[verifier::opaque]
    pub open spec fn ok(&self) -> bool {
        &&& defect(self.cfg()) ==> may_refuse()
        &&& sound(self.table())
        &&& forall|k: Key| #[trigger] self.loaded().dom().contains(k) ==> {
            &&& reach(self.cfg(), k)
            &&& fs_canon(k) == Some(k)
            &&& fs_nodes(k, self.cfg().allow) == Some(self.loaded()[k].nodes@)
            &&& self.loaded()[k].tag@ == k
        }
        &&& forall|k: Key, i: int| self.loaded().dom().contains(k) && 0 <= i < nodes(self.cfg(), k).len() ==> declares(self.table(), *(#[trigger] nodes(self.cfg(), k)[i]))
        &&& forall|x: Key| #[trigger] self.table().dom().contains(x) ==> given_in(self.cfg(), self.loaded().dom(), x)
    }

    /// everything but the two tables
    pub open spec fn same_walk(&self, o: &Self) -> bool {
        &&& self.current == o.current
        &&& self.visited == o.visited
        &&& self.graph == o.graph
        &&& self.include_paths == o.include_paths
        &&& self.allow_undefined_behavior == o.allow_undefined_behavior
    }
}

pub open spec fn given_in(c: Cfg, s: Set<Key>, x: Key) -> bool {
    exists|k: Key, i: int| s.contains(k) && 0 <= i < nodes(c, k).len() && gives(#[trigger] *nodes(c, k)[i], x)
}

/// a name that is not fresh is declared twice
proof fn not_fresh(s: IDLStore, k: Key)
    requires s.ok(), reach(s.cfg(), k), readable(s.cfg(), k), !s.loaded().dom().contains(k), !fresh(s.table(), nodes(s.cfg(), k), nodes(s.cfg(), k).len() as int),
    ensures may_refuse(),
{
    reveal(IDLStore::ok);
    let c = s.cfg();
    let d = nodes(c, k);
    let m = s.table();
    if exists|i: int| 0 <= i < d.len() && (#[trigger] tn(d, i)) is Some && taken(m, tn(d, i)->Some_0) {
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] tn(d, i)) is Some && taken(m, tn(d, i)->Some_0);
        let n = tn(d, i)->Some_0;
        let x = if m.dom().contains(sym_struct(n)) { sym_struct(n) } else { sym_const(n) };
        assert(given_in(c, s.loaded().dom(), x));
        let (a, j) = choose|a: Key, j: int| s.loaded().dom().contains(a) && 0 <= j < nodes(c, a).len() && gives(#[trigger] *nodes(c, a)[j], x);
        given_name(nodes(c, a), j, n);
        assert(declares_at(c, a, j) && declares_at(c, k, i));
        assert(name_at(c, a, j) == name_at(c, k, i));
    } else {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] tn(d, i)) is Some && tn(d, i) == (#[trigger] tn(d, j));
        assert(declares_at(c, k, i) && declares_at(c, k, j));
        assert(name_at(c, k, i) == name_at(c, k, j));
    }
}

/// one file more
proof fn file_added(s: IDLStore, t: IDLStore, k: Key, a: Rc<Ast>)
    requires s.ok(), reach(s.cfg(), k), fs_canon(k) == Some(k), fs_nodes(k, s.cfg().allow) == Some(a.nodes@), a.tag@ == k,
        t.same_walk(&s), t.loaded() == s.loaded().insert(k, a), sound(t.table()), gathered(t.table(), s.table(), a.nodes@, a.nodes@.len() as int),
    ensures t.ok(),
{
    reveal(IDLStore::ok);
    let c = s.cfg();
    assert(t.cfg() == c);
    assert forall|x: Key, i: int| t.loaded().dom().contains(x) && 0 <= i < nodes(c, x).len() implies declares(t.table(), *(#[trigger] nodes(c, x)[i])) by {
        if x != k { assert(declares(s.table(), *nodes(c, x)[i])); } else { assert(declares(t.table(), *a.nodes@[i])); }
    }
    assert forall|x: Key| #[trigger] t.table().dom().contains(x) implies given_in(c, t.loaded().dom(), x) by {
        if s.table().dom().contains(x) {
            assert(given_in(c, s.loaded().dom(), x));
            let (y, j) = choose|y: Key, j: int| s.loaded().dom().contains(y) && 0 <= j < nodes(c, y).len() && gives(#[trigger] *nodes(c, y)[j], x);
            assert(t.loaded().dom().contains(y) && gives(*nodes(c, y)[j], x));
        } else {
            let i = choose|i: int| 0 <= i < a.nodes@.len() && gives(#[trigger] *a.nodes@[i], x);
            assert(gives(*nodes(c, k)[i], x));
        }
    }
}

/*@ idlc_ast_passes/src/idl_store.rs | fn IDLStore::with_includes |
ret r
spec {
    ensures r.loaded() == Map::<Key, Rc<Ast>>::empty(), r.table() == Map::<Key, (Rc<Node>, PathBuf)>::empty(), r.visited@ == Set::<Key>::empty(),
        r.graph.nodes@ == Map::<Key, HashSet<PathBuf>>::empty(), r.cfg() == (Cfg { inc: keys(include_paths@), allow: allow_undefined_behavior }),
}
start {
    proof {
        assert forall|v: Vec<PathBuf>| v@.len() == include_paths@.len() && (forall|i: int| 0 <= i < v@.len() ==> cloned(include_paths@[i], #[trigger] v@[i])) implies #[trigger] keys(v@) == keys(include_paths@) by {
            broadcast use clone_keeps_key;
            assert(keys(v@) =~= keys(include_paths@));
        }
    }
}
@*/

/*@ idlc_ast_passes/src/idl_store.rs | fn IDLStore::insert_canonical | mut_self,refcell
sub ast.clone().into() => Rc::new(ast.clone())
spec {
    requires old(self).ok(), reach(old(self).cfg(), canonical@), fs_canon(canonical@) == Some(canonical@),
        fs_nodes(canonical@, old(self).cfg().allow) == Some(ast.nodes@), ast.tag@ == canonical@, !old(self).loaded().dom().contains(canonical@),
    ensures final(self).ok(), final(self).same_walk(old(self)), final(self).loaded().dom() == old(self).loaded().dom().insert(canonical@),
}
start {
    broadcast use path_key;
    let ghost s = *self;
    proof {
        if !fresh(s.table(), ast.nodes@, ast.nodes@.len() as int) { not_fresh(s, canonical@); }
        assert(sound(s.table())) by { reveal(IDLStore::ok); }
    }
}
tail {
    proof { file_added(s, *self, canonical@, self.loaded()[canonical@]); }
}
@*/

/*@ idlc_ast_passes/src/idl_store.rs | fn IDLStore::get_or_insert | mut_self,opt_expect,opt_unwrap_or_else,opt_unwrap
ret r
spec {
    requires old(self).ok(), reach(old(self).cfg(), file_path@), fs_canon(file_path@) == Some(file_path@),
    ensures final(self).ok(), final(self).same_walk(old(self)), final(self).loaded().dom() == old(self).loaded().dom().insert(file_path@),
        fs_nodes(file_path@, old(self).cfg().allow) == Some(r.nodes@), r.tag@ == file_path@,
}
start {
    broadcast use path_key;
    reveal(IDLStore::ok);
}
@*/

/*@ idlc_ast_passes/src/idl_store.rs | fn IDLStore::change_to_canonical | refcell,opt_unwrap,for_ref_possibilities
ret r
spec {
    requires old(self).ok(), fs_parent(path@) is Some, fs_parent(current@) is Some,
        resolve(old(self).cfg().inc, current@, path@) is None ==> may_refuse(),
    ensures *final(self) == *old(self), resolve(old(self).cfg().inc, current@, path@) == Some(r@),
}
start {
    broadcast use {path_key, canonical, absolute, file_canonical};
    reveal(IDLStore::ok);
    assert(self.loaded() == self.ast_store.v@);
    assert(fs_canon(path@) == Some(path@) ==> fs_join(fs_parent(current@)->Some_0, path@) == path@ && !bare(path@));
}
loop 0 {
    invariant *self == *old(self), it0.seq().len() == self.include_paths@.len(),
        forall|j: int| 0 <= j < self.include_paths@.len() ==> *(#[trigger] it0.seq()[j]) == self.include_paths@[j],
        match first {
            None => first_match(self.cfg().inc, path@, 0) == first_match(self.cfg().inc, path@, it0.index()),
            Some(f) => first_match(self.cfg().inc, path@, 0) == Some(f@),
        },
}
body 0 {
    broadcast use {path_key, canonical, absolute, file_canonical};
    proof { assert(*it0.seq()[it0.index()] == self.include_paths@[it0.index()]); }
}
loop 1 {
    invariant verif_iter.wf(),
    decreases verif_iter.v@.len() - verif_iter.i,
}
@*/

// ---------------------------------------------------------------- the walk

impl IDLStore {
    /// between two steps of the walk, in file `me`
    #[verifier::opaque]
    pub open spec fn walking(&self, me: Key) -> bool {
        &&& self.ok()
        &&& self.loaded().dom().contains(me)
        &&& self.loaded().dom().contains(main_file())
        &&& self.visited@.subset_of(self.loaded().dom())
        &&& self.loaded().dom().subset_of(self.visited@.insert(main_file()))
        &&& self.visited@.subset_of(fs_files())
        &&& state(self.graph.nodes@, self.loaded().dom(), edges(self.cfg()), fs_files(), me)
    }

    /// what a part of the walk adds
    #[verifier::opaque]
    pub open spec fn added(&self, t: &Self) -> bool {
        &&& t.include_paths == self.include_paths
        &&& t.allow_undefined_behavior == self.allow_undefined_behavior
        &&& self.visited@.subset_of(t.visited@)
        &&& self.loaded().dom().subset_of(t.loaded().dom())
        &&& grown(self.graph.nodes@, t.graph.nodes@)
        &&& all_done(t.graph.nodes@, t.loaded().dom(), edges(self.cfg()), self.loaded().dom())
    }

    pub open spec fn left(&self) -> nat { fs_files().difference(self.visited@).len() }

    /// the include at i of `me` has been followed
    pub open spec fn followed(&self, me: Key, i: int) -> bool {
        &&& leads(self.cfg(), me, i) is Some
        &&& succ(self.graph.nodes@, me).contains(leads(self.cfg(), me, i)->Some_0)
        &&& self.loaded().dom().contains(leads(self.cfg(), me, i)->Some_0)
    }

    pub open spec fn followed_all(&self, me: Key, k: int) -> bool {
        forall|i: int| 0 <= i < k && #[trigger] includes(self.cfg(), me, i) ==> self.followed(me, i)
    }
}

pub open spec fn includes_path(c: Cfg, me: Key, p: Key) -> bool { exists|i: int| #[trigger] includes(c, me, i) && inc_at(nodes(c, me), i) == Some(p) }

pub open spec fn path_followed(s: IDLStore, me: Key, p: Key) -> bool {
    &&& resolve(s.cfg().inc, me, p) is Some
    &&& succ(s.graph.nodes@, me).contains(resolve(s.cfg().inc, me, p)->Some_0)
    &&& s.loaded().dom().contains(resolve(s.cfg().inc, me, p)->Some_0)
}

proof fn added_on(a: IDLStore, b: IDLStore, c: IDLStore)
    requires a.added(&b), b.added(&c),
    ensures a.added(&c), c.left() <= b.left() <= a.left(), c.cfg() == a.cfg(),
{
    reveal(IDLStore::added);
    grown_on(a.graph.nodes@, b.graph.nodes@, c.graph.nodes@);
    still_done(b.graph.nodes@, c.graph.nodes@, b.loaded().dom(), c.loaded().dom(), edges(a.cfg()), a.loaded().dom());
    vstd::set_lib::lemma_len_subset(fs_files().difference(c.visited@), fs_files().difference(b.visited@));
    vstd::set_lib::lemma_len_subset(fs_files().difference(b.visited@), fs_files().difference(a.visited@));
}

proof fn added_none(a: IDLStore, b: IDLStore)
    requires b.visited == a.visited, b.graph == a.graph, b.include_paths == a.include_paths, b.allow_undefined_behavior == a.allow_undefined_behavior, b.ast_store == a.ast_store,
    ensures a.added(&b), b.left() == a.left(), b.cfg() == a.cfg(),
{
    reveal(IDLStore::added);
}

proof fn still_followed(a: IDLStore, b: IDLStore, me: Key, k: int)
    requires a.added(&b), a.followed_all(me, k),
    ensures b.followed_all(me, k),
{
    reveal(IDLStore::added);
    assert forall|i: int| 0 <= i < k && #[trigger] includes(b.cfg(), me, i) implies b.followed(me, i) by {
        assert(includes(a.cfg(), me, i));
        assert(succ(a.graph.nodes@, me).subset_of(succ(b.graph.nodes@, me)));
    }
}

proof fn all_followed(s: IDLStore, me: Key)
    requires s.followed_all(me, nodes(s.cfg(), me).len() as int),
    ensures done(s.graph.nodes@, s.loaded().dom(), edges(s.cfg()), me),
{
    assert forall|j: Key| #[trigger] edges(s.cfg())(me, j) implies succ(s.graph.nodes@, me).contains(j) && s.loaded().dom().contains(j) by {
        let i = choose|i: int| #[trigger] includes(s.cfg(), me, i) && leads(s.cfg(), me, i) == Some(j);
        assert(s.followed(me, i));
    }
}

pub open spec fn same_but_current(s: IDLStore, t: IDLStore) -> bool { t == (IDLStore { current: t.current, ..s }) }

pub open spec fn same_tables(s: IDLStore, t: IDLStore) -> bool { t.ast_store == s.ast_store && t.symbols == s.symbols && t.include_paths == s.include_paths && t.allow_undefined_behavior == s.allow_undefined_behavior }

/// the edge is noted
pub open spec fn stepped(s: IDLStore, t: IDLStore, me: Key, to: Key) -> bool {
    &&& t.include_paths == s.include_paths && t.allow_undefined_behavior == s.allow_undefined_behavior
    &&& t.visited@ == s.visited@.insert(to)
    &&& same_but(t.graph.nodes@, s.graph.nodes@, me) && succ(t.graph.nodes@, me) == succ(s.graph.nodes@, me).insert(to)
}

proof fn entered(s: IDLStore, t: IDLStore, me: Key, to: Key)
    requires s.walking(me), edge(s.cfg(), me, to), t.ok(), stepped(s, t, me, to), t.loaded().dom() == s.loaded().dom().insert(to), readable(s.cfg(), to),
    ensures t.walking(to), !s.visited@.contains(to) ==> t.left() < s.left(),
{
    broadcast use parsed;
    reveal(IDLStore::walking);
    reveal(IDLStore::ok);
    let e = edges(s.cfg());
    assert(e(me, to));
    let h = t.graph.nodes@;
    one_more(s.graph.nodes@, h, s.loaded().dom(), e, fs_files(), me, to);
    assert(t.cfg() == s.cfg());
    assert(state(h, t.loaded().dom(), e, fs_files(), to));
    if !s.visited@.contains(to) { less_left(fs_files(), s.visited@, t.visited@, to); }
}

proof fn left_again(s: IDLStore, t: IDLStore, u: IDLStore, w: IDLStore, me: Key, to: Key)
    requires s.walking(me), edge(s.cfg(), me, to), t.walking(to), stepped(s, t, me, to), t.loaded().dom() == s.loaded().dom().insert(to),
        t.added(&u), u.walking(to), done(u.graph.nodes@, u.loaded().dom(), edges(u.cfg()), to), same_but_current(u, w),
    ensures w.walking(me), s.added(&w), succ(w.graph.nodes@, me).contains(to), w.loaded().dom().contains(to), w.cfg() == s.cfg(),
{
    reveal(IDLStore::walking);
    reveal(IDLStore::ok);
    reveal(IDLStore::added);
    let e = edges(s.cfg());
    assert(e(me, to));
    let g = s.graph.nodes@;
    let h = t.graph.nodes@;
    one_more(g, h, s.loaded().dom(), e, fs_files(), me, to);
    grown_on(g, h, u.graph.nodes@);
    assert(w.cfg() == s.cfg());
    assert(succ(h, me).subset_of(succ(u.graph.nodes@, me)));
    assert forall|k: Key| #[trigger] u.loaded().dom().contains(k) && !s.loaded().dom().contains(k) implies done(u.graph.nodes@, u.loaded().dom(), e, k) by {
        if k != to { assert(!t.loaded().dom().contains(k)); }
    }
    assert(all_done(w.graph.nodes@, w.loaded().dom(), e, s.loaded().dom()));
    assert(state(w.graph.nodes@, w.loaded().dom(), e, fs_files(), me));
}

/// the edge is not noted yet
pub open spec fn unstepped(s: IDLStore, t: IDLStore, to: Key) -> bool {
    t.include_paths == s.include_paths && t.allow_undefined_behavior == s.allow_undefined_behavior && t.visited@ == s.visited@.insert(to) && t.graph == s.graph
}

pub open spec fn plus_edge(u: IDLStore, w: IDLStore, me: Key, to: Key) -> bool {
    same_but(w.graph.nodes@, u.graph.nodes@, me) && succ(w.graph.nodes@, me) == succ(u.graph.nodes@, me).insert(to)
}

proof fn entered_late(s: IDLStore, t: IDLStore, me: Key, to: Key)
    requires s.walking(me), edge(s.cfg(), me, to), t.ok(), unstepped(s, t, to), t.loaded().dom() == s.loaded().dom().insert(to), readable(s.cfg(), to),
    ensures t.walking(to), !s.visited@.contains(to) ==> t.left() < s.left(),
{
    broadcast use parsed;
    reveal(IDLStore::walking);
    reveal(IDLStore::ok);
    assert(t.cfg() == s.cfg());
    assert(state(t.graph.nodes@, t.loaded().dom(), edges(s.cfg()), fs_files(), to));
    if !s.visited@.contains(to) { less_left(fs_files(), s.visited@, t.visited@, to); }
}

proof fn left_late(s: IDLStore, t: IDLStore, u: IDLStore, w: IDLStore, me: Key, to: Key)
    requires s.walking(me), edge(s.cfg(), me, to), t.walking(to), unstepped(s, t, to), t.loaded().dom() == s.loaded().dom().insert(to),
        t.added(&u), u.walking(to), done(u.graph.nodes@, u.loaded().dom(), edges(u.cfg()), to), same_tables(u, w), w.visited == u.visited, plus_edge(u, w, me, to),
    ensures w.walking(me), s.added(&w), succ(w.graph.nodes@, me).contains(to), w.loaded().dom().contains(to), w.cfg() == s.cfg(),
{
    reveal(IDLStore::walking);
    reveal(IDLStore::ok);
    reveal(IDLStore::added);
    let e = edges(s.cfg());
    assert(e(me, to));
    let h = w.graph.nodes@;
    let v = u.loaded().dom();
    assert(w.cfg() == s.cfg() && u.cfg() == s.cfg());
    assert(state(u.graph.nodes@, v, e, fs_files(), me));
    one_more(u.graph.nodes@, h, v, e, fs_files(), me, to);
    grown_on(s.graph.nodes@, u.graph.nodes@, h);
    assert forall|k: Key| #[trigger] v.contains(k) && !s.loaded().dom().contains(k) implies done(h, v, e, k) by {
        if k != to { assert(!t.loaded().dom().contains(k)); }
        assert(done(u.graph.nodes@, v, e, k));
        assert forall|j: Key| #[trigger] e(k, j) implies succ(h, k).contains(j) && v.contains(j) by { assert(succ(u.graph.nodes@, k).contains(j)); assert(succ(u.graph.nodes@, k).subset_of(succ(h, k))); }
    }
    assert(all_done(h, w.loaded().dom(), e, s.loaded().dom()));
    assert(state(h, w.loaded().dom(), e, fs_files(), me));
}

proof fn known(s: IDLStore, w: IDLStore, me: Key, to: Key)
    requires s.walking(me), edge(s.cfg(), me, to), stepped(s, w, me, to), same_tables(s, w), s.visited@.contains(to),
    ensures w.walking(me), s.added(&w), succ(w.graph.nodes@, me).contains(to), w.loaded().dom().contains(to), w.cfg() == s.cfg(),
{
    reveal(IDLStore::walking);
    reveal(IDLStore::ok);
    reveal(IDLStore::added);
    let e = edges(s.cfg());
    assert(e(me, to));
    one_more(s.graph.nodes@, w.graph.nodes@, s.loaded().dom(), e, fs_files(), me, to);
    assert(w.cfg() == s.cfg());
    assert(s.visited@.insert(to) =~= s.visited@);
    assert(w.loaded().dom() == s.loaded().dom());
    assert(all_done(w.graph.nodes@, w.loaded().dom(), e, s.loaded().dom()));
    assert(state(w.graph.nodes@, w.loaded().dom(), e, fs_files(), me));
}

/*@ idlc_ast/src/visitor.rs | fn walk_all | rc_as_ref
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut IDLStore
sub ast.tag.as_path() => &ast.tag
spec {
    requires old(visitor).walking(ast.tag@), fs_nodes(ast.tag@, old(visitor).cfg().allow) == Some(ast.nodes@),
    ensures final(visitor).walking(ast.tag@),
        old(visitor).added(final(visitor)),
        done(final(visitor).graph.nodes@, final(visitor).loaded().dom(), edges(final(visitor).cfg()), ast.tag@),
    decreases old(visitor).left(), 1nat
}
start {
    let ghost s = *visitor;
    let ghost me = ast.tag@;
    proof {
        assert forall|t: IDLStore| #![trigger t.walking(me)] #![trigger s.added(&t)] same_but_current(s, t) implies t.walking(me) && s.added(&t) && t.left() == s.left() && t.cfg() == s.cfg() by {
            reveal(IDLStore::walking);
            reveal(IDLStore::ok);
            added_none(s, t);
        }
    }
}
loop 0 {
    invariant
        s == *old(visitor), me == ast.tag@,
        visitor.walking(me), s.added(visitor), visitor.left() <= s.left(), visitor.cfg() == s.cfg(),
        visitor.current is Some, (visitor.current->Some_0)@ == me,
        fs_nodes(me, s.cfg().allow) == Some(ast.nodes@),
        it0.seq().len() == ast.nodes@.len(),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> *(#[trigger] it0.seq()[j]) == ast.nodes@[j],
        visitor.followed_all(me, it0.index()),
}
body 0 {
    let ghost m = *visitor;
    let ghost k = it0.index();
    proof {
        assert(*it0.seq()[k] == ast.nodes@[k]);
        assert(inc_at(ast.nodes@, k) is Some ==> includes(m.cfg(), me, k));
        added_none(m, m);
    }
}
end 0 {
    proof {
        added_on(s, m, *visitor);
        still_followed(m, *visitor, me, k);
    }
}
after 0 {
    proof { all_followed(*visitor, me); }
}
@*/

/*@ idlc_ast_passes/src/idl_store.rs | impl Visitor IDLStore | inherit=idlc_ast/src/visitor.rs#Visitor,opt_unwrap
sub impl IDLStore => impl<'ast> IDLStore
in visit_root_ident spec {
    ensures *final(self) == (IDLStore { current: final(self).current, ..*old(self) }), final(self).current is Some, (final(self).current->Some_0)@ == root_ident@,
}
in visit_include spec {
    requires old(self).current is Some, old(self).walking((old(self).current->Some_0)@),
        includes_path(old(self).cfg(), (old(self).current->Some_0)@, include@),
    ensures final(self).current is Some, (final(self).current->Some_0)@ == (old(self).current->Some_0)@,
        final(self).walking((old(self).current->Some_0)@),
        old(self).added(final(self)),
        path_followed(*final(self), (old(self).current->Some_0)@, include@),
    decreases old(self).left(), 0nat
}
in visit_include start {
    broadcast use {path_key, parsed};
    let ghost s = *self;
    let ghost me = (self.current->Some_0)@;
    let ghost r = resolve(self.cfg().inc, me, include@);
    let ghost to = r->Some_0;
    proof {
        let i = choose|i: int| #[trigger] includes(s.cfg(), me, i) && inc_at(nodes(s.cfg(), me), i) == Some(include@);
        assert(leads(s.cfg(), me, i) == r);
        reveal(IDLStore::walking);
        assert(s.loaded().dom().contains(me) && reach(s.cfg(), me) && (defect(s.cfg()) ==> may_refuse())) by { reveal(IDLStore::ok); }
        assert(r is None ==> defect(s.cfg()));
        resolved_canonical(s.cfg().inc, me, include@);
        if r is Some { step(s.cfg(), me, i); }
        assert forall|t: IDLStore| same_tables(s, t) implies #[trigger] t.ok() by { reveal(IDLStore::ok); }
        if r is Some {
            assert forall|t: IDLStore| #[trigger] t.ok() && stepped(s, t, me, to) && t.loaded().dom() == s.loaded().dom().insert(to) && readable(s.cfg(), to) implies t.walking(to) && (!s.visited@.contains(to) ==> t.left() < s.left()) by {
                entered(s, t, me, to);
            }
            assert forall|t: IDLStore, u: IDLStore, w: IDLStore| #![trigger t.added(&u), w.walking(me)] #![trigger t.added(&u), s.added(&w)] #![trigger t.added(&u), path_followed(w, me, include@)] t.walking(to) && stepped(s, t, me, to) && t.loaded().dom() == s.loaded().dom().insert(to)
                && t.added(&u) && u.walking(to) && done(u.graph.nodes@, u.loaded().dom(), edges(u.cfg()), to) && same_but_current(u, w)
                implies w.walking(me) && s.added(&w) && path_followed(w, me, include@) by {
                left_again(s, t, u, w, me, to);
            }
            // the edge may as well be noted afterwards
            assert forall|t: IDLStore| #[trigger] t.ok() && unstepped(s, t, to) && t.loaded().dom() == s.loaded().dom().insert(to) && readable(s.cfg(), to) implies t.walking(to) && (!s.visited@.contains(to) ==> t.left() < s.left()) by {
                entered_late(s, t, me, to);
            }
            assert forall|t: IDLStore, u: IDLStore, w: IDLStore| #![trigger t.added(&u), w.walking(me)] #![trigger t.added(&u), s.added(&w)] #![trigger t.added(&u), path_followed(w, me, include@)]
                t.walking(to) && unstepped(s, t, to) && t.loaded().dom() == s.loaded().dom().insert(to)
                && t.added(&u) && u.walking(to) && done(u.graph.nodes@, u.loaded().dom(), edges(u.cfg()), to) && same_tables(u, w) && w.visited == u.visited && plus_edge(u, w, me, to)
                implies w.walking(me) && s.added(&w) && path_followed(w, me, include@) by {
                left_late(s, t, u, w, me, to);
            }
            assert forall|w: IDLStore| #![trigger w.walking(me)] #![trigger s.added(&w)] #![trigger path_followed(w, me, include@)] stepped(s, w, me, to) && same_tables(s, w) && s.visited@.contains(to) implies w.walking(me) && s.added(&w) && path_followed(w, me, include@) by {
                known(s, w, me, to);
            }
        }
    }
}
in visit_const spec { ensures *final(self) == *old(self),  }
in visit_ident spec { ensures *final(self) == *old(self),  }
in visit_expr spec { ensures *final(self) == *old(self),  }
in visit_struct spec { ensures *final(self) == *old(self),  }
in visit_struct_field spec { ensures *final(self) == *old(self),  }
in visit_ty spec { ensures *final(self) == *old(self),  }
in visit_primitive_ty spec { ensures *final(self) == *old(self),  }
in visit_custom_ty spec { ensures *final(self) == *old(self),  }
in visit_interface spec { ensures *final(self) == *old(self),  }
in visit_iface_node spec { ensures *final(self) == *old(self),  }
in visit_fn spec { ensures *final(self) == *old(self),  }
in visit_error spec { ensures *final(self) == *old(self),  }
in visit_doc spec { ensures *final(self) == *old(self),  }
in visit_fn_param spec { ensures *final(self) == *old(self),  }
@*/

/*@ idlc_ast/src/visitor.rs | fn walk_const |
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut IDLStore
spec { ensures *final(visitor) == *old(visitor), }
@*/

/*@ idlc_ast/src/visitor.rs | fn walk_struct |
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut IDLStore
spec { ensures *final(visitor) == *old(visitor), }
loop 0 {
    invariant *visitor == *old(visitor),
}
@*/

/*@ idlc_ast/src/visitor.rs | fn walk_struct_field |
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut IDLStore
spec { ensures *final(visitor) == *old(visitor), }
@*/

/*@ idlc_ast/src/visitor.rs | fn walk_ty |
sub (c, ty.1) => (c.ident.as_str(), ty.1)
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut IDLStore
spec { ensures *final(visitor) == *old(visitor), }
@*/

/*@ idlc_ast/src/visitor.rs | fn walk_iface |
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut IDLStore
spec { ensures *final(visitor) == *old(visitor), }
loop 0 {
    invariant *visitor == *old(visitor),
}
@*/

/*@ idlc_ast/src/visitor.rs | fn walk_iface_node |
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut IDLStore
spec { ensures *final(visitor) == *old(visitor), }
@*/

/*@ idlc_ast/src/visitor.rs | fn walk_fn |
sub <'a, V: Visitor<'a>> => <'a>
sub &mut V => &mut IDLStore
spec { ensures *final(visitor) == *old(visitor), }
loop 0 {
    invariant *visitor == *old(visitor),
}
@*/

// ---------------------------------------------------------------- the pass

/// exactly the reachable files are loaded
pub open spec fn loaded_reachable(c: Cfg, s: Set<Key>) -> bool { forall|k: Key| #[trigger] s.contains(k) <==> reach(c, k) }

/// C12: a name is visible if and only if a reachable file declares it, and it stands for that declaration
pub open spec fn visible(c: Cfg, m: Symbols) -> bool {
    &&& sound(m)
    &&& forall|k: Key, i: int| reach(c, k) && 0 <= i < nodes(c, k).len() ==> declares(m, *(#[trigger] nodes(c, k)[i]))
    &&& forall|x: Key| #[trigger] m.dom().contains(x) ==> exists|k: Key, i: int| reach(c, k) && readable(c, k) && 0 <= i < nodes(c, k).len() && gives(#[trigger] *nodes(c, k)[i], x)
}

pub open spec fn cycle_refused(r: Result<Vec<String>, Error>, c: Cfg) -> bool { r is Err ==> include_cycle(c) }

proof fn at_start(s: IDLStore)
    requires s.ok(), s.loaded().dom() == Set::<Key>::empty().insert(main_file()), s.visited@ == Set::<Key>::empty(), s.graph.nodes@ == Map::<Key, HashSet<PathBuf>>::empty(),
    ensures s.walking(main_file()),
{
    reveal(IDLStore::walking);
    reveal(IDLStore::ok);
    broadcast use parsed;
}

proof fn reaches(t: IDLStore, p: Seq<Key>, n: int)
    requires t.loaded().dom().contains(main_file()), route(t.cfg(), p), 0 <= n < p.len(), p[0] == main_file(),
        all_done(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), Set::<Key>::empty()),
    ensures t.loaded().dom().contains(p[n]),
    decreases n
{
    if n > 0 {
        reaches(t, p, n - 1);
        assert(done(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), p[n - 1]));
        assert(edges(t.cfg())(p[n - 1], p[n]));
    }
}

proof fn at_end(s: IDLStore, t: IDLStore)
    requires s.loaded().dom() == Set::<Key>::empty().insert(main_file()), t.walking(main_file()), s.added(&t), done(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), main_file()),
    ensures t.ok(), t.cfg() == s.cfg(), loaded_reachable(t.cfg(), t.loaded().dom()), visible(t.cfg(), t.table()),
        within(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), fs_files()),
{
    reveal(IDLStore::walking);
    reveal(IDLStore::ok);
    reveal(IDLStore::added);
    let c = t.cfg();
    let v = t.loaded().dom();
    let e = edges(c);
    assert forall|k: Key| #[trigger] v.contains(k) && !Set::<Key>::empty().contains(k) implies done(t.graph.nodes@, v, e, k) by {}
    assert forall|k: Key| reach(c, k) implies #[trigger] v.contains(k) by {
        let p = choose|p: Seq<Key>| #[trigger] route(c, p) && p.len() > 0 && p[0] == main_file() && p.last() == k;
        reaches(t, p, p.len() - 1);
    }
    assert forall|x: Key| #[trigger] t.table().dom().contains(x) implies exists|k: Key, i: int| reach(c, k) && readable(c, k) && 0 <= i < nodes(c, k).len() && gives(#[trigger] *nodes(c, k)[i], x) by {
        assert(given_in(c, v, x));
        let (k, i) = choose|k: Key, i: int| v.contains(k) && 0 <= i < nodes(c, k).len() && gives(#[trigger] *nodes(c, k)[i], x);
        assert(gives(*nodes(c, k)[i], x));
    }
    assert forall|k: Key, i: int| reach(c, k) && 0 <= i < nodes(c, k).len() implies declares(t.table(), *(#[trigger] nodes(c, k)[i])) by { assert(v.contains(k)); }
}

proof fn no_cycle(t: IDLStore, o: Seq<Key>)
    requires within(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), fs_files()), loaded_reachable(t.cfg(), t.loaded().dom()),
        topological(t.graph.nodes@, o), forall|k: Key| t.graph.nodes@.dom().contains(k) ==> #[trigger] o.contains(k),
    ensures !include_cycle(t.cfg()),
{
    let c = t.cfg();
    let g = t.graph.nodes@;
    let v = t.loaded().dom();
    if include_cycle(c) {
        let p = choose|p: Seq<Key>| #[trigger] route(c, p) && p.len() > 0 && reach(c, p[0]) && exists|i: int| 0 <= i < p.len() - 1 && p[i] == p.last();
        assert forall|i: int| 0 <= i < p.len() implies v.contains(#[trigger] p[i]) by { inside(t, p, i); }
        assert forall|i: int| 0 < i < p.len() implies succ(g, p[i - 1]).contains(#[trigger] p[i]) by {
            assert(v.contains(p[i - 1]));
            assert(done(g, v, edges(c), p[i - 1]));
            assert(edges(c)(p[i - 1], p[i]));
        }
        assert(is_cycle(g, p));
        order_means_acyclic(g, o, p);
    }
}

proof fn inside(t: IDLStore, p: Seq<Key>, i: int)
    requires within(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), fs_files()), route(t.cfg(), p), 0 <= i < p.len(), t.loaded().dom().contains(p[0]),
    ensures t.loaded().dom().contains(p[i]),
    decreases i
{
    if i > 0 {
        inside(t, p, i - 1);
        assert(done(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), p[i - 1]));
        assert(edges(t.cfg())(p[i - 1], p[i]));
    }
}

proof fn a_cycle(t: IDLStore, p: Seq<Key>)
    requires within(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), fs_files()), loaded_reachable(t.cfg(), t.loaded().dom()), is_cycle(t.graph.nodes@, p),
    ensures include_cycle(t.cfg()),
{
    let g = t.graph.nodes@;
    assert forall|i: int| 0 < i < p.len() implies edge(t.cfg(), p[i - 1], #[trigger] p[i]) by {
        assert(succ(g, p[i - 1]).contains(p[i]));
        assert(edges(t.cfg())(p[i - 1], p[i]));
    }
    assert(route(t.cfg(), p));
    assert(succ(g, p[0]).contains(p[1]));
    assert(t.loaded().dom().contains(p[0]));
}

/*@ idlc_ast_passes/src/idl_store.rs | fn IDLStore::check_includes | map_collect
ret r
spec {
    requires
        // as the driver calls it: the main file is loaded and nothing else
        old(self).ok(), old(self).loaded().dom() == Set::<Key>::empty().insert(main_file()), old(self).visited@ == Set::<Key>::empty(), old(self).graph.nodes@ == Map::<Key, HashSet<PathBuf>>::empty(),
        ast.tag@ == main_file(), fs_nodes(main_file(), old(self).cfg().allow) == Some(ast.nodes@),
    ensures
        final(self).ok(), final(self).cfg() == old(self).cfg(),
        loaded_reachable(old(self).cfg(), final(self).loaded().dom()),
        visible(old(self).cfg(), final(self).table()),
        r is Ok ==> !include_cycle(old(self).cfg()),
        cycle_refused(r, old(self).cfg()),
}
start {
    broadcast use path_key;
    let ghost s = *self;
    let ghost c = s.cfg();
    proof {
        at_start(s);
        assert forall|t: IDLStore| #[trigger] s.added(&t) && t.walking(main_file()) && done(t.graph.nodes@, t.loaded().dom(), edges(t.cfg()), main_file())
            implies t.ok() && t.cfg() == c && loaded_reachable(c, t.loaded().dom()) && visible(c, t.table()) && within(t.graph.nodes@, t.loaded().dom(), edges(c), fs_files()) by { at_end(s, t); }
        assert forall|t: IDLStore, o: Seq<Key>| #![trigger s.added(&t), topological(t.graph.nodes@, o)] t.cfg() == c && within(t.graph.nodes@, t.loaded().dom(), edges(c), fs_files()) && loaded_reachable(c, t.loaded().dom())
            && topological(t.graph.nodes@, o) && (forall|k: Key| t.graph.nodes@.dom().contains(k) ==> #[trigger] o.contains(k)) implies !include_cycle(c) by { no_cycle(t, o); }
        assert forall|t: IDLStore, o: Seq<Key>| #![trigger s.added(&t), is_cycle(t.graph.nodes@, o)] t.cfg() == c && within(t.graph.nodes@, t.loaded().dom(), edges(c), fs_files()) && loaded_reachable(c, t.loaded().dom())
            && is_cycle(t.graph.nodes@, o) implies include_cycle(c) by { a_cycle(t, o); }
    }
}
@*/

/*@ idlc_ast_passes/src/idl_store.rs | fn CompilerPass/IDLStore::run_pass |
ret r
sub Self::Output => Vec<String>
spec {
    requires
        old(self).ok(), old(self).loaded().dom() == Set::<Key>::empty().insert(main_file()), old(self).visited@ == Set::<Key>::empty(), old(self).graph.nodes@ == Map::<Key, HashSet<PathBuf>>::empty(),
        ast.tag@ == main_file(), fs_nodes(main_file(), old(self).cfg().allow) == Some(ast.nodes@),
    ensures
        final(self).ok(), final(self).cfg() == old(self).cfg(),
        loaded_reachable(old(self).cfg(), final(self).loaded().dom()),
        visible(old(self).cfg(), final(self).table()),
        r is Ok ==> !include_cycle(old(self).cfg()),
        cycle_refused(r, old(self).cfg()),
}
@*/

// ---------------------------------------------------------------- the lookups

/// the grammar: a struct has fields, and no buffer is the type of a field
pub broadcast axiom fn struct_grammar(k: Key, allow: bool, i: int)
    ensures (fs_nodes(k, allow) is Some && 0 <= i < fs_nodes(k, allow)->Some_0.len() && #[trigger] node_at(fs_nodes(k, allow)->Some_0, i) is Struct) ==> ({
        let f = node_at(fs_nodes(k, allow)->Some_0, i)->Struct_0.fields@;
        f.len() > 0 && forall|j: int| 0 <= j < f.len() ==> !((#[trigger] f[j]).val.0 is UntypedBuffer)
    });

pub open spec fn node_at(d: Seq<Rc<Node>>, i: int) -> Node { *d[i] }

/// what the passes after this one rely on (`store_ok` and `ast_in_store` in their contracts)
proof fn passes_may_rely(c: Cfg, m: Symbols)
    requires visible(c, m), !defect(c),
    ensures store_ok(structs_of(m), ifaces_of(m)),
        forall|k: Key| #[trigger] reach(c, k) ==> ast_in_store(nodes(c, k), structs_of(m), ifaces_of(m)),
{
    broadcast use {sym_struct_name, sym_iface_name, sym_const_name, sym_kinds, struct_grammar};
    let s = structs_of(m);
    let f = ifaces_of(m);
    assert forall|n: Seq<char>| #[trigger] s.dom().contains(n) implies s[n].ident.ident@ == n && s[n].fields.len() > 0
        && forall|i: int| 0 <= i < s[n].fields.len() ==> !((#[trigger] s[n].fields@[i]).val.0 is UntypedBuffer) by {
        tables(m, n);
        let x = sym_struct(n);
        let (k, i) = choose|k: Key, i: int| reach(c, k) && readable(c, k) && 0 <= i < nodes(c, k).len() && gives(#[trigger] *nodes(c, k)[i], x);
        assert(declares(m, *nodes(c, k)[i]));
        assert(sym_name(x) == n);
        assert(node_at(nodes(c, k), i) == *nodes(c, k)[i]);
    }
    assert forall|n: Seq<char>| #[trigger] f.dom().contains(n) implies f[n].ident.ident@ == n by { tables(m, n); }
    assert forall|k: Key| #[trigger] reach(c, k) implies ast_in_store(nodes(c, k), s, f) by {
        let d = nodes(c, k);
        assert forall|j: int| 0 <= j < d.len() && (#[trigger] *d[j]) is Struct implies s.dom().contains((*d[j])->Struct_0.ident.ident@) && s[(*d[j])->Struct_0.ident.ident@] == (*d[j])->Struct_0 by {
            assert(declares(m, *nodes(c, k)[j]));
            tables(m, node_at(d, j)->Struct_0.ident.ident@);
        }
        assert forall|j: int| 0 <= j < d.len() && (#[trigger] *d[j]) is Interface implies f.dom().contains((*d[j])->Interface_0.ident.ident@) && f[(*d[j])->Interface_0.ident.ident@] == (*d[j])->Interface_0 by {
            assert(declares(m, *nodes(c, k)[j]));
            tables(m, node_at(d, j)->Interface_0.ident.ident@);
        }
    }
}

/*@ idlc_ast_passes/src/idl_store.rs | fn IDLStore::struct_lookup | opt_map,rc_as_ref
ret r
spec {
    requires sound(self.table()),
    ensures r is Some <==> structs_of(self.table()).dom().contains(name@),
        r is Some ==> *(r->Some_0).0 == structs_of(self.table())[name@] && (r->Some_0).1@ == self.table()[sym_struct(name@)].1@,
}
start {
    broadcast use {sym_key, sym_struct_name, sym_iface_name, sym_const_name};
    proof { tables(self.table(), name@); }
}
@*/

/*@ idlc_ast_passes/src/idl_store.rs | fn IDLStore::iface_lookup | opt_map,rc_as_ref
ret r
spec {
    requires sound(self.table()),
    ensures r is Some <==> ifaces_of(self.table()).dom().contains(name@),
        r is Some ==> *(r->Some_0) == ifaces_of(self.table())[name@],
}
start {
    broadcast use {sym_key, sym_struct_name, sym_iface_name, sym_const_name};
    proof { tables(self.table(), name@); }
}
@*/

}
fn main() {}
