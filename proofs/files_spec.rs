// The files of a backend that writes one file per interface and one for the declarations of the IDL file (C19).
verus! {

/*@ idlc_mir/src/mir.rs | enum Node | @*/
/*@ idlc_mir/src/mir.rs | struct Mir | @*/

pub type Files = Map<Seq<char>, Seq<char>>;

/// what the generators print: not looked into here
pub uninterp spec fn const_text(c: Const) -> Seq<char>;
pub uninterp spec fn struct_text(s: StructInner) -> Seq<char>;

pub open spec fn inner(s: Struct) -> StructInner { match s { Struct::Small(x) => x, Struct::Big(x) => x } }

pub uninterp spec fn file_name_of(tag: PathBuf) -> Seq<char>;
pub uninterp spec fn with_extension(n: Seq<char>, e: Seq<char>) -> Seq<char>;
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;

pub open spec fn starts(s: Seq<char>, head: Seq<char>) -> bool { s.len() >= head.len() && s.take(head.len() as int) =~= head }

/// the parts are in the text, in this order, apart from each other
pub open spec fn within(t: Seq<char>, parts: Seq<Seq<char>>) -> bool
    decreases parts.len()
{
    parts.len() == 0 || exists|x: Seq<char>, y: Seq<char>| t == #[trigger] (x + parts.last() + y) && within(x, parts.drop_last())
}

/// what belongs to the file of the IDL file
pub open spec fn own_parts(n: Seq<Rc<Node>>, k: int, own: Seq<char>, of: Seq<char>) -> Seq<Seq<char>>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        let p = own_parts(n, k - 1, own, of);
        match *n[k - 1] {
            Node::Const(c) => p.push(const_text(c)),
            Node::Struct(s) => p.push(struct_text(inner(s))),
            Node::Interface(i) => if file_of(i) == own { p.push(iface_text(i, of)) } else { p },
            Node::Include(_) => p,
        }
    }
}

pub open spec fn is_iface(n: Seq<Rc<Node>>, k: int) -> bool { *n[k] is Interface }
pub open spec fn file_at(n: Seq<Rc<Node>>, k: int) -> Seq<char> { file_of((*n[k])->Interface_0) }
pub open spec fn new_file(n: Node, f: Seq<char>) -> bool { n is Interface && file_of(n->Interface_0) == f }
pub open spec fn has_file(n: Seq<Rc<Node>>, k: int, f: Seq<char>) -> bool { exists|j: int| 0 <= j < k && new_file(*#[trigger] n[j], f) }

pub open spec fn apart(n: Seq<Rc<Node>>, k: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < k && *n[i] is Interface && *n[j] is Interface ==> file_of((*#[trigger] n[i])->Interface_0) != file_of((*#[trigger] n[j])->Interface_0)
}

/// the files after k declarations
pub open spec fn named(m: Files, n: Seq<Rc<Node>>, k: int, own: Seq<char>) -> bool {
    forall|f: Seq<char>| #[trigger] m.dom().contains(f) <==> f == own || has_file(n, k, f)
}
pub open spec fn bannered(m: Files, head: Seq<char>) -> bool { forall|f: Seq<char>| #[trigger] m.dom().contains(f) ==> starts(m[f], head) }
pub open spec fn own_complete(m: Files, n: Seq<Rc<Node>>, k: int, own: Seq<char>, of: Seq<char>, head: Seq<char>) -> bool {
    starts(m[own], head) && within(m[own].skip(head.len() as int), own_parts(n, k, own, of))
}
/// the file of an interface holds that interface, whole
pub open spec fn each_complete(m: Files, n: Seq<Rc<Node>>, k: int, own: Seq<char>, of: Seq<char>, head: Seq<char>) -> bool {
    forall|j: int| 0 <= j < k && *n[j] is Interface && file_of((*#[trigger] n[j])->Interface_0) != own
        ==> starts(m[file_of((*n[j])->Interface_0)], head) && within(m[file_of((*n[j])->Interface_0)].skip(head.len() as int), seq![iface_text((*n[j])->Interface_0, of)])
}

pub open spec fn sum(parts: Seq<Seq<char>>) -> nat
    decreases parts.len()
{
    if parts.len() == 0 { 0 } else { sum(parts.drop_last()) + parts.last().len() }
}

pub proof fn within_len(t: Seq<char>, parts: Seq<Seq<char>>)
    requires within(t, parts),
    ensures t.len() >= sum(parts),
    decreases parts.len()
{
    if parts.len() > 0 {
        let (x, y) = choose|x: Seq<char>, y: Seq<char>| t == #[trigger] (x + parts.last() + y) && within(x, parts.drop_last());
        within_len(x, parts.drop_last());
    }
}

/// text that is added at the end changes nothing
pub proof fn within_more(t: Seq<char>, e: Seq<char>, parts: Seq<Seq<char>>)
    requires within(t, parts),
    ensures within(t + e, parts),
{
    if parts.len() > 0 {
        let (x, y) = choose|x: Seq<char>, y: Seq<char>| t == #[trigger] (x + parts.last() + y) && within(x, parts.drop_last());
        assert(t + e =~= x + parts.last() + (y + e));
    }
}

pub proof fn within_push(t: Seq<char>, p: Seq<char>, parts: Seq<Seq<char>>)
    requires within(t, parts),
    ensures within(t + p, parts.push(p)),
{
    assert(parts.push(p).drop_last() =~= parts);
    assert(parts.push(p).last() == p);
    assert(t + p =~= t + p + Seq::<char>::empty());
}

/// a text added to the file of the IDL file that holds a part of it
pub proof fn more(t: Seq<char>, e: Seq<char>, p: Seq<char>, parts: Seq<Seq<char>>, head: Seq<char>)
    requires starts(t, head), within(t.skip(head.len() as int), parts), holds(e, p),
    ensures starts(t + e, head), within((t + e).skip(head.len() as int), parts.push(p)),
{
    let h = head.len() as int;
    reveal(holds);
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| e == #[trigger] (a + p + b);
    within_more(t.skip(h), a, parts);
    within_push(t.skip(h) + a, p, parts);
    within_more(t.skip(h) + a + p, b, parts.push(p));
    assert((t + e).skip(h) =~= t.skip(h) + a + p + b);
    assert((t + e).take(h) =~= t.take(h));
}

/// any text added
pub proof fn longer(t: Seq<char>, e: Seq<char>, parts: Seq<Seq<char>>, head: Seq<char>)
    requires starts(t, head), within(t.skip(head.len() as int), parts),
    ensures starts(t + e, head), within((t + e).skip(head.len() as int), parts),
{
    let h = head.len() as int;
    within_more(t.skip(h), e, parts);
    assert((t + e).skip(h) =~= t.skip(h) + e);
    assert((t + e).take(h) =~= t.take(h));
}

/// a file of its own
pub proof fn fresh(head: Seq<char>, e: Seq<char>, p: Seq<char>)
    requires holds(e, p),
    ensures starts(head + e, head), within((head + e).skip(head.len() as int), seq![p]),
{
    let none = Seq::<Seq<char>>::empty();
    assert(none.push(p) =~= seq![p]);
    more(head, e, p, none, head);
}

#[verifier::opaque]
pub open spec fn holds(e: Seq<char>, p: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| e == #[trigger] (a + p + b) }

/// what one more declaration adds to the names
pub proof fn step(n: Seq<Rc<Node>>, k: int)
    requires 0 <= k < n.len(),
    ensures
        !(*n[k] is Interface) ==> (apart(n, k) ==> apart(n, k + 1)) && forall|f: Seq<char>| has_file(n, k + 1, f) == #[trigger] has_file(n, k, f),
        *n[k] is Interface ==> (apart(n, k) && !has_file(n, k, file_of((*n[k])->Interface_0)) ==> apart(n, k + 1))
            && (has_file(n, k, file_of((*n[k])->Interface_0)) ==> !apart(n, n.len() as int))
            && forall|f: Seq<char>| #[trigger] has_file(n, k + 1, f) == (has_file(n, k, f) || f == file_of((*n[k])->Interface_0)),
{
    assert forall|f: Seq<char>| has_file(n, k, f) implies #[trigger] has_file(n, k + 1, f) by {
        let j = choose|j: int| 0 <= j < k && new_file(*#[trigger] n[j], f);
        assert(0 <= j < k + 1 && new_file(*n[j], f));
    }
    assert(*n[k] is Interface ==> new_file(*n[k], file_of((*n[k])->Interface_0)));
    assert(*n[k] is Interface ==> has_file(n, k + 1, file_of((*n[k])->Interface_0)));
    assert(apart(n, k) && *n[k] is Interface && !has_file(n, k, file_of((*n[k])->Interface_0)) ==> apart(n, k + 1)) by {
        if is_iface(n, k) && !apart(n, k + 1) && apart(n, k) {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < k + 1 && *n[i] is Interface && *n[j] is Interface && file_of((*#[trigger] n[i])->Interface_0) == file_of((*#[trigger] n[j])->Interface_0);
            assert(j == k);
            assert(new_file(*n[i], file_of((*n[k])->Interface_0)));
        }
    }
    if is_iface(n, k) && has_file(n, k, file_at(n, k)) {
        let j = choose|j: int| 0 <= j < k && new_file(*#[trigger] n[j], file_of((*n[k])->Interface_0));
        assert(j < k);
    }
}

/// what one declaration adds
pub open spec fn adds(was: Files, now: Files, d: Node, own: Seq<char>, of: Seq<char>, head: Seq<char>) -> bool {
    match d {
        Node::Const(c) => appended(was, now, own, const_text(c)),
        Node::Struct(s) => appended(was, now, own, struct_text(inner(s))),
        Node::Interface(i) => if file_of(i) == own { appended(was, now, own, iface_text(i, of)) } else { put(was, now, file_of(i), head, iface_text(i, of)) },
        Node::Include(_) => now == was,
    }
}
/// a text that holds this part
pub open spec fn appended(was: Files, now: Files, f: Seq<char>, p: Seq<char>) -> bool { exists|e: Seq<char>| now == was.insert(f, #[trigger] (was[f] + e)) && holds(e, p) }
pub open spec fn put(was: Files, now: Files, f: Seq<char>, head: Seq<char>, p: Seq<char>) -> bool { exists|e: Seq<char>| now == was.insert(f, #[trigger] (head + e)) && holds(e, p) }

pub proof fn holds_here(a: Seq<char>, p: Seq<char>, b: Seq<char>)
    ensures holds(a + p + b, p),
{
    reveal(holds);
}
pub proof fn holds_longer(e: Seq<char>, y: Seq<char>, p: Seq<char>)
    requires holds(e, p),
    ensures holds(e + y, p),
{
    reveal(holds);
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| e == #[trigger] (a + p + b);
    assert(e + y =~= a + p + (b + y));
}
pub proof fn holds_self()
    ensures
        forall|p: Seq<char>| #[trigger] holds(p, p),
        forall|x: Seq<char>, p: Seq<char>| holds(#[trigger] (x + p), p),
        forall|e: Seq<char>, y: Seq<char>, p: Seq<char>| #[trigger] holds(e, p) ==> holds(#[trigger] (e + y), p),
        forall|e: Seq<char>, y: char, p: Seq<char>| #[trigger] holds(e, p) ==> holds(#[trigger] e.push(y), p),
{
    let none = Seq::<char>::empty();
    assert forall|x: Seq<char>, p: Seq<char>| holds(#[trigger] (x + p), p) by { holds_here(x, p, none); assert(x + p =~= x + p + none); }
    assert forall|p: Seq<char>| #[trigger] holds(p, p) by { holds_here(none, p, none); assert(p =~= none + p + none); }
    assert forall|e: Seq<char>, y: Seq<char>, p: Seq<char>| #[trigger] holds(e, p) implies holds(#[trigger] (e + y), p) by { holds_longer(e, y, p); }
    assert forall|e: Seq<char>, y: char, p: Seq<char>| #[trigger] holds(e, p) implies holds(#[trigger] e.push(y), p) by { holds_longer(e, seq![y], p); assert(e.push(y) =~= e + seq![y]); }
}

pub proof fn added(was: Files, now: Files, n: Seq<Rc<Node>>, k: int, own: Seq<char>, of: Seq<char>, head: Seq<char>)
    requires
        0 <= k < n.len(), adds(was, now, *n[k], own, of, head),
        named(was, n, k, own), bannered(was, head), own_complete(was, n, k, own, of, head),
    ensures
        named(now, n, k + 1, own), bannered(now, head), own_complete(now, n, k + 1, own, of, head),
        each_complete(was, n, k, own, of, head) && apart(n, k + 1) ==> each_complete(now, n, k + 1, own, of, head),
{
    step(n, k);
    let parts = own_parts(n, k, own, of);
    match *n[k] {
        Node::Const(c) => { own_more(was, now, own, const_text(c), parts, head); }
        Node::Struct(s) => { own_more(was, now, own, struct_text(inner(s)), parts, head); }
        Node::Interface(i) => {
            if file_of(i) == own { own_more(was, now, own, iface_text(i, of), parts, head); } else {
                let e = choose|e: Seq<char>| now == was.insert(file_of(i), #[trigger] (head + e)) && holds(e, iface_text(i, of));
                fresh(head, e, iface_text(i, of));
            }
        }
        Node::Include(_) => {}
    }
}

pub proof fn own_more(was: Files, now: Files, own: Seq<char>, p: Seq<char>, parts: Seq<Seq<char>>, head: Seq<char>)
    requires appended(was, now, own, p), starts(was[own], head), within(was[own].skip(head.len() as int), parts),
    ensures starts(now[own], head), within(now[own].skip(head.len() as int), parts.push(p)), now == was.insert(own, now[own]),
{
    let e = choose|e: Seq<char>| now == was.insert(own, #[trigger] (was[own] + e)) && holds(e, p);
    more(was[own], e, p, parts, head);
}

// ---- the output

/// the files of an output: each of the map that holds more than the banner, once
pub open spec fn lists(d: Seq<(PathBuf, String)>, m: Files, head: Seq<char>) -> bool {
    &&& forall|j: int| 0 <= j < d.len() ==> m.dom().contains(path_text((#[trigger] d[j]).0)) && d[j].1@ == m[path_text(d[j].0)] && d[j].1@ != head
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) && m[n] != head ==> exists|j: int| 0 <= j < d.len() && path_text(#[trigger] d[j].0) == n
    &&& forall|j: int, l: int| 0 <= j < l < d.len() ==> path_text(#[trigger] d[j].0) != path_text(#[trigger] d[l].0)
}

/// no file but that of the IDL file and those of its interfaces
pub open spec fn only_expected(d: Seq<(PathBuf, String)>, n: Seq<Rc<Node>>, own: Seq<char>) -> bool {
    &&& forall|j: int| 0 <= j < d.len() ==> path_text((#[trigger] d[j]).0) == own || has_file(n, n.len() as int, path_text(d[j].0))
    &&& forall|j: int, l: int| 0 <= j < l < d.len() ==> path_text(#[trigger] d[j].0) != path_text(#[trigger] d[l].0)
}
pub open spec fn banner_first(d: Seq<(PathBuf, String)>, banner: Seq<char>) -> bool {
    forall|j: int| 0 <= j < d.len() ==> starts((#[trigger] d[j]).1@, banner)
}
/// the file f is written and holds these parts
pub open spec fn written(d: Seq<(PathBuf, String)>, f: Seq<char>, parts: Seq<Seq<char>>, hl: int) -> bool {
    exists|j: int| 0 <= j < d.len() && path_text((#[trigger] d[j]).0) == f && d[j].1@.len() >= hl && within(d[j].1@.skip(hl), parts)
}
pub open spec fn own_written(d: Seq<(PathBuf, String)>, n: Seq<Rc<Node>>, own: Seq<char>, of: Seq<char>) -> bool {
    sum(own_parts(n, n.len() as int, own, of)) > 0 ==> exists|hl: int| 0 <= hl && #[trigger] written(d, own, own_parts(n, n.len() as int, own, of), hl)
}
pub open spec fn interfaces_written(d: Seq<(PathBuf, String)>, n: Seq<Rc<Node>>, own: Seq<char>, of: Seq<char>) -> bool {
    forall|i: int| 0 <= i < n.len() && *n[i] is Interface && file_of((*#[trigger] n[i])->Interface_0) != own && iface_text((*n[i])->Interface_0, of).len() > 0
        ==> exists|hl: int| 0 <= hl && #[trigger] written(d, file_of((*n[i])->Interface_0), seq![iface_text((*n[i])->Interface_0, of)], hl)
}

pub proof fn concluded(d: Seq<(PathBuf, String)>, m: Files, n: Seq<Rc<Node>>, own: Seq<char>, of: Seq<char>, head: Seq<char>, banner: Seq<char>)
    requires
        lists(d, m, head), named(m, n, n.len() as int, own), bannered(m, head), starts(head, banner),
        own_complete(m, n, n.len() as int, own, of, head),
    ensures
        only_expected(d, n, own), banner_first(d, banner), own_written(d, n, own, of),
        each_complete(m, n, n.len() as int, own, of, head) ==> interfaces_written(d, n, own, of),
{
    let k = n.len() as int;
    let hl = head.len() as int;
    assert forall|j: int| 0 <= j < d.len() implies starts((#[trigger] d[j]).1@, banner) by {
        let s = d[j].1@;
        assert(starts(s, head));
        assert forall|q: int| 0 <= q < banner.len() implies s[q] == banner[q] by {
            assert(s.take(hl)[q] == s[q]);
            assert(head.take(banner.len() as int)[q] == head[q]);
        }
        assert(s.take(banner.len() as int) =~= banner);
    }
    let parts = own_parts(n, k, own, of);
    if sum(parts) > 0 {
        within_len(m[own].skip(hl), parts);
        assert(m[own].len() > hl);
        assert(m.dom().contains(own));
        assert(written(d, own, parts, hl));
    }
    if each_complete(m, n, k, own, of, head) {
        assert forall|i: int| 0 <= i < k && *n[i] is Interface && file_of((*#[trigger] n[i])->Interface_0) != own && iface_text((*n[i])->Interface_0, of).len() > 0
            implies exists|hl: int| 0 <= hl && #[trigger] written(d, file_of((*n[i])->Interface_0), seq![iface_text((*n[i])->Interface_0, of)], hl) by {
            let f = file_of((*n[i])->Interface_0);
            let p = seq![iface_text((*n[i])->Interface_0, of)];
            assert(new_file(*n[i], f));
            assert(m.dom().contains(f));
            assert(p.drop_last() =~= Seq::<Seq<char>>::empty());
            within_len(m[f].skip(hl), p);
            assert(sum(p) == p.last().len() + sum(p.drop_last()));
            assert(m[f].len() > hl);
            assert(written(d, f, p, hl));
        }
    }
}

// ---------------------------------------------------------------- std

/// HashMap and HashSet of std, of the types used here
#[verifier::external_body]
pub struct HashMap { x: u8 }
impl View for HashMap { type V = Files; uninterp spec fn view(&self) -> Files; }
impl HashMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: PathBuf, v: String) ensures final(self)@ == old(self)@.insert(path_text(k), v@), { unimplemented!() }
    /// get_mut(k).unwrap().push_str(s)
    #[verifier::external_body]
    pub fn push_at(&mut self, k: &PathBuf, s: &str)
        requires old(self)@.dom().contains(path_text(*k)),
        ensures final(self)@ == old(self)@.insert(path_text(*k), old(self)@[path_text(*k)] + s@),
    { unimplemented!() }
    /// into_iter().filter(|(_, content)| content != head).collect()
    #[verifier::external_body]
    pub fn other_than(self, head: &String) -> (r: Vec<(PathBuf, String)>) ensures lists(r@, self@, head@), { unimplemented!() }
}

#[verifier::external_body]
pub struct HashSet { x: u8 }
impl View for HashSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl HashSet {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@), { unimplemented!() }
}

/// the generator's name and version
pub uninterp spec fn generated_by() -> Seq<char>;
#[verifier::external_body]
pub fn header_comment() -> (r: &'static str) ensures r@ == generated_by(), { unimplemented!() }

/// file names are there and are Unicode: the input is a file, its stem an identifier
#[verifier::external_body]
pub fn name_of_file(tag: &PathBuf) -> (r: &str) ensures r@ == file_name_of(*tag), { unimplemented!() }
#[verifier::external_body]
pub fn path_of(n: String) -> (r: PathBuf) ensures path_text(r) == n@, { PathBuf::from(n) }
#[verifier::external_body]
pub fn path_of_str(n: &str) -> (r: PathBuf) ensures path_text(r) == n@, { PathBuf::from(n) }
#[verifier::external_body]
pub fn same(n: &String, p: &PathBuf) -> (r: bool) ensures r == (n@ == path_text(*p)), { unimplemented!() }

#[verifier::external_body]
pub fn cat(a: String, b: String) -> (r: String)
    ensures r@ == a@ + b@,
{ a + &b }

pub trait AsText { spec fn as_text(&self) -> Seq<char>; fn to_string_(&self) -> (r: String) ensures r@ == self.as_text(); }
impl AsText for str {
    open spec fn as_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for String {
    open spec fn as_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for Ident {
    open spec fn as_text(&self) -> Seq<char> { self.ident@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.ident.to_string() }
}

pub trait Lower { spec fn whole(&self) -> Seq<char>; fn to_lowercase_(&self) -> (r: String) ensures r@ == lower(self.whole()); }
impl Lower for str {
    open spec fn whole(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_lowercase_(&self) -> (r: String) { self.to_lowercase() }
}
impl Lower for Ident {
    open spec fn whole(&self) -> Seq<char> { self.ident@ }
    #[verifier::external_body]
    fn to_lowercase_(&self) -> (r: String) { self.ident.to_lowercase() }
}

impl Struct {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &StructInner) ensures *r == inner(*self), { unimplemented!() }
}

/// an interface, then its ancestors
pub uninterp spec fn lineage(i: Interface) -> Seq<Interface>;
#[verifier::external_body]
pub struct Chain<'a> { x: std::marker::PhantomData<&'a u8> }
impl<'a> View for Chain<'a> { type V = Seq<Interface>; uninterp spec fn view(&self) -> Seq<Interface>; }
impl<'a> Chain<'a> {
    pub fn into_iter(self) -> (r: Self) ensures r@ == self@, { self }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Self) requires n <= self@.len(), ensures r@ == self@.skip(n as int), { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Interface>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
impl Interface {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Chain<'_>) ensures r@ == lineage(*self), r@.len() >= 1, { unimplemented!() }
}

pub trait PathThings: Sized {
    spec fn pt(self) -> Seq<char>;
    fn set_extension_(&mut self, e: &str) ensures final(self).pt() == with_extension(old(self).pt(), e@);
}
impl PathThings for PathBuf {
    open spec fn pt(self) -> Seq<char> { path_text(self) }
    #[verifier::external_body]
    fn set_extension_(&mut self, e: &str) { unimplemented!() }
}
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait Cloned: Sized { fn clone_(&self) -> (r: Self) ensures r == *self; }
impl Cloned for PathBuf {
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) { unimplemented!() }
}
impl Cloned for String {
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) { unimplemented!() }
}
pub trait StringThings: Sized {
    spec fn st(self) -> Seq<char>;
    fn push_str_(&mut self, e: &str) ensures final(self).st() == old(self).st() + e@;
    fn pop_(&mut self) -> (r: Option<char>) ensures true;
    fn to_owned_(&self) -> (r: String) ensures r@ == self.st();
    fn into_(self) -> (r: PathBuf) ensures path_text(r) == self.st();
}
impl StringThings for String {
    open spec fn st(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn push_str_(&mut self, e: &str) { unimplemented!() }
    #[verifier::external_body]
    fn pop_(&mut self) -> (r: Option<char>) { unimplemented!() }
    #[verifier::external_body]
    fn to_owned_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn into_(self) -> (r: PathBuf) { unimplemented!() }
}

}
