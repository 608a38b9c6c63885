// The command-line driver: what is written, and after which decisions (C19, C09, C10, C12, C13).
use vstd::prelude::*;
#[allow(unused_imports)]
use std::rc::Rc;
verus! {

// ---------------------------------------------------------------- the file system and the process

pub struct Wv {
    /// files opened for writing, with what they hold
    pub written: Map<Seq<char>, Seq<char>>,
    /// IDL files of this compilation
    pub loaded: Set<Ast>,
    /// a phase was printed instead
    pub dumped: bool,
}

#[verifier::external_body]
pub struct World { x: u8 }
impl View for World { type V = Wv; uninterp spec fn view(&self) -> Wv; }

/// nothing was created, truncated or modified
pub open spec fn untouched(w: World) -> bool { w@.written == Map::<Seq<char>, Seq<char>>::empty() }

/// the input gives a reason to refuse it
pub uninterp spec fn may_refuse() -> bool;

/// panic!, unrecoverable!: a refusal, which leaves no output behind
#[verifier::external_body]
pub fn refuse(w: &mut World) -> !
    requires
        untouched(*old(w)), // refused: nothing written
        may_refuse(), // refuse only for a reason
{ panic!() }

#[verifier::external_body]
pub fn unreachable_code() -> ! requires false, { panic!() }

// ---------------------------------------------------------------- IDL files

#[verifier::external_body]
pub struct Ast { x: u8 }

/// the contracts of the units that carry them: store, functions, cycles, c06_ast, interface
pub uninterp spec fn ast_at(path: Seq<char>) -> Ast;
pub uninterp spec fn parses(path: Seq<char>) -> bool;
pub uninterp spec fn with_includes(a: Set<Ast>) -> Set<Ast>;
pub uninterp spec fn includes_found(a: Ast) -> bool;
pub uninterp spec fn include_cycle(a: Ast) -> bool;
pub uninterp spec fn distinct_params(a: Ast) -> bool;
pub uninterp spec fn acyclic(a: Ast) -> bool;
pub uninterp spec fn structs_of(a: Ast) -> Seq<Seq<char>>;
pub uninterp spec fn layouts_ok(order: Seq<Seq<char>>) -> bool;
pub uninterp spec fn resolves(a: Ast) -> bool;
pub uninterp spec fn mir_of(a: Ast) -> Mirv;
pub uninterp spec fn signatures_ok(m: Mirv) -> bool;

#[verifier::external_body]
pub struct Mirv { x: u8 }

/// C09: every restriction, of one file
pub open spec fn valid(a: Ast) -> bool { distinct_params(a) && acyclic(a) && layouts_ok(structs_of(a)) && resolves(a) && signatures_ok(mir_of(a)) }

// ---------------------------------------------------------------- the command line

pub uninterp spec fn cli() -> Cli;
pub uninterp spec fn canonical(p: Seq<char>) -> Seq<char>;
pub uninterp spec fn is_there(p: Seq<char>) -> bool;
pub uninterp spec fn directory(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn joined(d: Seq<char>, n: Seq<char>) -> Seq<char>;
pub uninterp spec fn content_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn here() -> Option<Seq<char>>;

pub open spec fn input() -> Seq<char> { canonical(cli().file@) }

/// C12: the directories of -I in their order, then the directory of the input
pub open spec fn search_path() -> Seq<Seq<char>> {
    (match cli().include_paths { Some(v) => texts(v@), None => Seq::empty() }).push(directory(input())->0)
}
pub open spec fn texts(v: Seq<PathBuf>) -> Seq<Seq<char>> { v.map_values(|p: PathBuf| p@) }
pub broadcast proof fn pushed(v: Seq<PathBuf>, p: PathBuf)
    ensures #[trigger] texts(v.push(p)) == texts(v).push(p@),
{ assert(texts(v.push(p)) =~= texts(v).push(p@)); }

pub enum Style { C, Java, Rust }
pub uninterp spec fn marked(text: Seq<char>, s: Style) -> Seq<char>;
pub uninterp spec fn c_text(m: Mirv, skel: bool, untyped: bool) -> Seq<char>;
pub uninterp spec fn cpp_text(m: Mirv, skel: bool) -> Seq<char>;
pub uninterp spec fn java_files(m: Mirv) -> Seq<(Seq<char>, Seq<char>)>;
pub uninterp spec fn rust_files(m: Mirv) -> Seq<(Seq<char>, Seq<char>)>;
/// what a generator may still refuse: modules whose names are the same on disk
pub uninterp spec fn generable(m: Mirv) -> bool;

pub open spec fn mark_text() -> Seq<char> { match cli().marking { Some(p) => content_of(p@)->0, None => Seq::empty() } }
pub open spec fn out() -> Seq<char> { match cli().output { Some(p) => p@, None => here()->0 } }
pub open spec fn skel() -> bool { cli().skel }

/// the files of a list in a directory: each begins with the marking and is complete
pub open spec fn all_files(l: Seq<(Seq<char>, Seq<char>)>, mark: Seq<char>) -> Map<Seq<char>, Seq<char>>
    decreases l.len()
{
    if l.len() == 0 { Map::empty() } else { all_files(l.drop_last(), mark).insert(joined(out(), l.last().0), mark + l.last().1) }
}

/// C19: exactly the expected files, C14: the marking comes in front of what there is without it
pub open spec fn expected(m: Mirv) -> Map<Seq<char>, Seq<char>> {
    if cli().java { all_files(java_files(m), marked(mark_text(), Style::Java)) }
    else if cli().rust { all_files(rust_files(m), marked(mark_text(), Style::Rust)) }
    else if cli().cpp { Map::empty().insert(out(), marked(mark_text(), Style::C) + cpp_text(m, skel())) }
    else { Map::empty().insert(out(), marked(mark_text(), Style::C) + c_text(m, skel(), cli().no_typed_objects)) }
}

/// every file of the compilation
pub open spec fn whole() -> Set<Ast> { with_includes(Set::empty().insert(ast_at(input()))) }

/// C10: what may be refused
pub open spec fn reasons() -> bool {
    let main = ast_at(input());
    &&& !is_there(cli().file@) ==> may_refuse()
    &&& directory(input()) is None ==> may_refuse()
    &&& !parses(input()) ==> may_refuse()
    &&& !includes_found(main) ==> may_refuse()
    &&& include_cycle(main) ==> may_refuse()
    &&& forall|a: Ast| #[trigger] whole().contains(a) && !valid(a) ==> may_refuse()
    &&& here() is None ==> may_refuse()
    &&& cli().marking is Some && content_of((cli().marking->0)@) is None ==> may_refuse()
    &&& !generable(mir_of(main)) ==> may_refuse()
}

// ---------------------------------------------------------------- std

pub mod verif_std {
    pub mod path {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body]
        pub struct PathBuf { x: u8 }
        impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
        impl PathBuf {
            #[verifier::external_body]
            pub fn canonicalize_(&self, w: &mut World) -> (r: Result<PathBuf, InputError>)
                ensures *final(w) == *old(w), r is Ok <==> is_there(self@), r is Ok ==> (r->Ok_0)@ == canonical(self@), r is Err ==> *(r->Err_0).reason() == !is_there(self@),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn parent(&self) -> (r: Option<&PathBuf>)
                ensures match r { Some(d) => directory(self@) == Some(d@), None => directory(self@) is None },
            { unimplemented!() }
            #[verifier::external_body]
            pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@, { unimplemented!() }
            #[verifier::external_body]
            pub fn join(&self, n: PathBuf) -> (r: PathBuf) ensures r@ == joined(self@, n@), { unimplemented!() }
        }
    }
    pub mod env {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body]
        pub fn current_dir(w: &mut World) -> (r: Result<PathBuf, InputError>)
            ensures *final(w) == *old(w), r is Ok <==> here() is Some, r is Ok ==> here() == Some((r->Ok_0)@),
        { unimplemented!() }
    }
    pub mod fs {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body]
        pub fn read_to_string(p: PathBuf, w: &mut World) -> (r: Result<String, InputError>)
            ensures *final(w) == *old(w), r is Ok <==> content_of(p@) is Some, r is Ok ==> content_of(p@) == Some((r->Ok_0)@),
        { unimplemented!() }
        /// options: create, write, truncate, and nothing else
        pub struct OpenOptions { pub c: bool, pub t: bool, pub wr: bool }
        impl OpenOptions {
            pub fn new() -> (r: Self) ensures !r.c && !r.t && !r.wr, { OpenOptions { c: false, t: false, wr: false } }
            pub fn create(self, b: bool) -> (r: Self) ensures r == (OpenOptions { c: b, ..self }), { OpenOptions { c: b, ..self } }
            pub fn truncate(self, b: bool) -> (r: Self) ensures r == (OpenOptions { t: b, ..self }), { OpenOptions { t: b, ..self } }
            pub fn write(self, b: bool) -> (r: Self) ensures r == (OpenOptions { wr: b, ..self }), { OpenOptions { wr: b, ..self } }
            /// a file that exists and is not truncated keeps what it held
            #[verifier::external_body]
            pub fn open_(self, p: PathBuf, w: &mut World) -> (r: Result<File, OutputError>)
                requires self.c && self.t && self.wr, // opened: created if need be, and emptied
                ensures r is Ok ==> (r->Ok_0)@ == p@ && final(w)@ == (Wv { written: old(w)@.written.insert(p@, Seq::empty()), ..old(w)@ }),
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct File { x: u8 }
        impl View for File { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
        impl File {
            #[verifier::external_body]
            pub fn write_all_(&mut self, b: Bytes, w: &mut World) -> (r: Result<(), OutputError>)
                requires old(w)@.written.contains_key(old(self)@),
                ensures final(self)@ == old(self)@, r is Ok ==> final(w)@ == (Wv { written: old(w)@.written.insert(old(self)@, old(w)@.written[old(self)@] + b@), ..old(w)@ }),
            { unimplemented!() }
        }
    }
    pub mod process {
        use vstd::prelude::*;
        use super::super::*;
        /// success without output: only where a phase is printed instead
        #[verifier::external_body]
        pub fn exit(code: i32, w: &mut World) -> !
            requires
                code == 0 ==> old(w)@.dumped, // exits: success without output means a dump
                untouched(*old(w)), // before anything is written
        { unimplemented!() }
    }
}
pub use verif_std::path::PathBuf;

/// something about the input could not be read: a refusal
#[verifier::external_body]
pub struct InputError { x: u8 }
impl InputError { pub uninterp spec fn reason(&self) -> &bool; }
/// the output could not be written: not for the input's sake
#[verifier::external_body]
pub struct OutputError { x: u8 }

pub trait Take<T>: Sized {
    spec fn value(self) -> Option<T>;
    /// whether a missing value refuses the input
    spec fn refuses(self) -> bool;
    fn unwrap_(self, w: &mut World) -> (r: T)
        requires
            self.value() is None && self.refuses() ==> may_refuse(), // refuses for a reason
            self.value() is None && self.refuses() ==> untouched(*old(w)), // before anything is written
        ensures self.value() == Some(r), *final(w) == *old(w);
    fn expect_(self, m: &str, w: &mut World) -> (r: T)
        requires
            self.value() is None && self.refuses() ==> may_refuse(), // refuses for a reason
            self.value() is None && self.refuses() ==> untouched(*old(w)), // before anything is written
        ensures self.value() == Some(r), *final(w) == *old(w);
}
impl<T> Take<T> for Option<T> {
    open spec fn value(self) -> Option<T> { self }
    open spec fn refuses(self) -> bool { true }
    #[verifier::external_body]
    fn unwrap_(self, w: &mut World) -> (r: T) { unimplemented!() }
    #[verifier::external_body]
    fn expect_(self, m: &str, w: &mut World) -> (r: T) { unimplemented!() }
}
impl<T> Take<T> for Result<T, InputError> {
    open spec fn value(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    open spec fn refuses(self) -> bool { true }
    #[verifier::external_body]
    fn unwrap_(self, w: &mut World) -> (r: T) { unimplemented!() }
    #[verifier::external_body]
    fn expect_(self, m: &str, w: &mut World) -> (r: T) { unimplemented!() }
}
impl<T> Take<T> for Result<T, OutputError> {
    open spec fn value(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    open spec fn refuses(self) -> bool { false }
    #[verifier::external_body]
    fn unwrap_(self, w: &mut World) -> (r: T) { unimplemented!() }
    #[verifier::external_body]
    fn expect_(self, m: &str, w: &mut World) -> (r: T) { unimplemented!() }
}

#[verifier::external_body]
pub struct Bytes { x: u8 }
impl View for Bytes { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait AsBytes { spec fn chars(&self) -> Seq<char>; fn as_bytes_(&self) -> (r: Bytes) ensures r@ == self.chars(); }
impl AsBytes for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_bytes_(&self) -> (r: Bytes) { unimplemented!() }
}

pub trait PathList: Sized { spec fn of(self) -> Seq<Seq<char>>; fn unwrap_or_default_(self) -> (r: Vec<PathBuf>) ensures texts(r@) == self.of(); fn clone_(&self) -> (r: Self) ensures r.of() == self.of(); }
impl PathList for Option<Vec<PathBuf>> {
    open spec fn of(self) -> Seq<Seq<char>> { match self { Some(v) => texts(v@), None => Seq::empty() } }
    #[verifier::external_body]
    fn unwrap_or_default_(self) -> (r: Vec<PathBuf>) { unimplemented!() }
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) { unimplemented!() }
}

// ---------------------------------------------------------------- the compiler's functions

pub struct CycleError { pub there: Ghost<bool> }

/// the restriction is broken
pub trait Broken { spec fn broken(self) -> bool; }
impl Broken for CycleError { open spec fn broken(self) -> bool { self.there@ } }

#[verifier::external_body]
pub struct IDLStore { x: u8 }
impl IDLStore {
    #[verifier::external_body]
    pub fn with_includes(paths: &Vec<PathBuf>, allow: bool) -> (r: Self)
        requires
            texts(paths@) == search_path(), // the search path: -I in order, then the directory of the input
            allow == cli().allow_undefined_behavior,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_insert_(&mut self, p: &PathBuf, w: &mut World) -> (r: Rc<Ast>)
        requires
            p@ == canonical(cli().file@), // loads: files by their canonical names
            untouched(*old(w)), // before anything is written
            !parses(p@) ==> may_refuse(), // loads: refuses what does not parse
        ensures parses(p@), *r == ast_at(p@), final(w)@ == (Wv { loaded: old(w)@.loaded.insert(*r), ..old(w)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn run_pass_(&self, a: &Ast, w: &mut World) -> (r: Result<(), CycleError>)
        requires
            untouched(*old(w)), // before anything is written
            !includes_found(*a) ==> may_refuse(), // includes: refuses what is not found
            old(w)@.loaded.contains(*a),
        ensures
            r is Ok ==> !include_cycle(*a) && includes_found(*a) && old(w)@.loaded.subset_of(with_includes(old(w)@.loaded)) && final(w)@ == (Wv { loaded: with_includes(old(w)@.loaded), ..old(w)@ }),
            r is Err ==> (include_cycle(*a) || !includes_found(*a)) && (r->Err_0).broken() && final(w)@.written == old(w)@.written,
            r is Err && !may_refuse() ==> include_cycle(*a) || !includes_found(*a),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn asts_(&self, w: &mut World) -> (r: Vec<Rc<Ast>>)
        ensures *final(w) == *old(w), forall|a: Ast| #[trigger] old(w)@.loaded.contains(a) <==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == a,
            forall|i: int| 0 <= i < r@.len() ==> old(w)@.loaded.contains(*#[trigger] r@[i]),
    { unimplemented!() }
}

pub mod idlc_ast_passes { pub mod functions {
    use vstd::prelude::*;
    use super::super::*;
    pub struct Functions {}
    impl Functions {
        pub fn new() -> Self { Functions {} }
        #[verifier::external_body]
        pub fn run_pass_(&mut self, a: &Ast, w: &mut World) -> (r: Result<(), CycleError>)
            requires
                untouched(*old(w)), // before anything is written
                !distinct_params(*a) ==> may_refuse(), // refuses parameters of one name
            ensures *final(w) == *old(w), distinct_params(*a), r is Ok,
        { unimplemented!() }
    }
} }

#[verifier::external_body]
pub struct Order { x: u8 }
impl View for Order { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }

pub mod cycles {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Cycles<'a> { s: &'a IDLStore }
    impl<'a> Cycles<'a> {
        #[verifier::external_body]
        pub fn new(s: &'a IDLStore) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn run_pass_(&mut self, a: &Ast, w: &mut World) -> (r: Result<Order, CycleError>)
            requires
                untouched(*old(w)), // before anything is written
                !resolves(*a) ==> may_refuse(), // refuses undefined names
            ensures *final(w) == *old(w), r is Ok ==> acyclic(*a) && (r->Ok_0)@ == structs_of(*a), r is Err ==> !acyclic(*a) && (r->Err_0).broken(),
        { unimplemented!() }
    }
}

pub mod struct_verifier {
    use vstd::prelude::*;
    use super::*;
    pub struct StructVerifier {}
    impl StructVerifier {
        #[verifier::external_body]
        pub fn run_pass(s: &IDLStore, o: &Order, w: &mut World) -> (r: Result<(), CycleError>)
            requires untouched(*old(w)),
            ensures *final(w) == *old(w), r is Ok <==> layouts_ok(o@), r is Err ==> (r->Err_0).broken(),
        { unimplemented!() }
    }
}

pub mod mir {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Mir { x: u8 }
    impl View for Mir { type V = Mirv; uninterp spec fn view(&self) -> Mirv; }
    #[verifier::external_body]
    pub fn parse_to_mir(a: &Ast, s: &mut IDLStore, w: &mut World) -> (r: Mir)
        requires
            untouched(*old(w)), // before anything is written
            !resolves(*a) ==> may_refuse(), // refuses undefined names
        ensures *final(w) == *old(w), resolves(*a), r@ == mir_of(*a),
    { unimplemented!() }
}

pub mod interface_verifier {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct InterfaceVerifier<'a> { m: &'a mir::Mir }
    impl<'a> InterfaceVerifier<'a> {
        pub uninterp spec fn of(self) -> Mirv;
        #[verifier::external_body]
        pub fn new(m: &'a mir::Mir) -> (r: Self) ensures r.of() == m@, { unimplemented!() }
        #[verifier::external_body]
        pub fn run_pass_(&mut self, w: &mut World)
            requires
                untouched(*old(w)), // before anything is written
                !signatures_ok(old(self).of()) ==> may_refuse(), // refuses what breaks a restriction
            ensures *final(w) == *old(w), signatures_ok(old(self).of()),
        { unimplemented!() }
    }
}

pub mod idlc_errors { pub fn init() {} }
pub mod idlc_ast {
    use vstd::prelude::*;
    use super::*;
    pub mod pst {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body]
        pub fn dump(p: &PathBuf, w: &mut World) ensures final(w)@ == (Wv { dumped: true, ..old(w)@ }), { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn dump(p: &PathBuf, w: &mut World) ensures final(w)@ == (Wv { dumped: true, ..old(w)@ }), { unimplemented!() }
}
pub mod idlc_mir {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn dump(m: mir::Mir, w: &mut World) ensures final(w)@ == (Wv { dumped: true, ..old(w)@ }), { unimplemented!() }
}

pub mod idlc_codegen { pub mod marking {
    use vstd::prelude::*;
    use super::super::*;
    pub enum MarkingStyle { C, Java, Rust }
    pub open spec fn style(s: MarkingStyle) -> Style { match s { MarkingStyle::C => Style::C, MarkingStyle::Java => Style::Java, MarkingStyle::Rust => Style::Rust } }
    #[verifier::external_body]
    pub struct Marking { x: u8 }
    impl Marking {
        pub uninterp spec fn text(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn new(t: &str, s: MarkingStyle) -> (r: Self) ensures r.text() == marked(t@, style(s)), { unimplemented!() }
        #[verifier::external_body]
        pub fn as_bytes_(&self) -> (r: Bytes) ensures r@ == self.text(), { unimplemented!() }
    }
} }

pub mod idlc_codegen_c {
    use vstd::prelude::*;
    use super::*;
    pub struct Generator { pub untyped: bool }
    impl Generator {
        pub fn new(b: bool) -> (r: Self) ensures r.untyped == b, { Generator { untyped: b } }
        #[verifier::external_body]
        pub fn generate_invoke_(&self, m: &mir::Mir, w: &mut World) -> (r: String)
            requires
                untouched(*old(w)), // before anything is written
                signatures_ok(m@), // generates: only from what was verified
            ensures *final(w) == *old(w), r@ == c_text(m@, true, self.untyped),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn generate_implementation_(&self, m: &mir::Mir, w: &mut World) -> (r: String)
            requires
                untouched(*old(w)), // before anything is written
                signatures_ok(m@), // generates: only from what was verified
            ensures *final(w) == *old(w), r@ == c_text(m@, false, self.untyped),
        { unimplemented!() }
    }
}
pub mod idlc_codegen_cpp {
    use vstd::prelude::*;
    use super::*;
    pub struct Generator;
    impl Generator {
        #[verifier::external_body]
        pub fn generate_invoke_(&self, m: &mir::Mir, w: &mut World) -> (r: String)
            requires
                untouched(*old(w)), // before anything is written
                signatures_ok(m@), // generates: only from what was verified
            ensures *final(w) == *old(w), r@ == cpp_text(m@, true),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn generate_implementation_(&self, m: &mir::Mir, w: &mut World) -> (r: String)
            requires
                untouched(*old(w)), // before anything is written
                signatures_ok(m@), // generates: only from what was verified
            ensures *final(w) == *old(w), r@ == cpp_text(m@, false),
        { unimplemented!() }
    }
}

/// name and content of every file of a backend
#[verifier::external_body]
pub struct Descriptor { x: u8 }
impl View for Descriptor { type V = Seq<(Seq<char>, Seq<char>)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<char>)>; }
impl Descriptor {
    pub fn into_iter(self) -> (r: Self) ensures r@ == self@, { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(PathBuf, String)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0).0@ == old(self)@[0].0 && (r->0).1@ == old(self)@[0].1 && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
pub mod idlc_codegen_java {
    use vstd::prelude::*;
    use super::*;
    pub struct Generator {}
    impl Generator {
        #[verifier::external_body]
        pub fn generate(m: &mir::Mir, w: &mut World) -> (r: Descriptor)
            requires
                untouched(*old(w)), // before anything is written
                signatures_ok(m@), // generates: only from what was verified
                !generable(m@) ==> may_refuse(), // refuses for a reason
            ensures *final(w) == *old(w), r@ == java_files(m@),
        { unimplemented!() }
    }
}
pub mod idlc_codegen_rust {
    use vstd::prelude::*;
    use super::*;
    pub struct Generator {}
    impl Generator {
        #[verifier::external_body]
        pub fn generate(m: &mir::Mir, w: &mut World) -> (r: Descriptor)
            requires
                untouched(*old(w)), // before anything is written
                signatures_ok(m@), // generates: only from what was verified
                !generable(m@) ==> may_refuse(), // refuses for a reason
            ensures *final(w) == *old(w), r@ == rust_files(m@),
        { unimplemented!() }
    }
}

impl Cli {
    /// clap: one language at most (c is always set), the skeleton not with java or rust
    #[verifier::external_body]
    pub fn parse(w: &mut World) -> (r: Cli)
        requires untouched(*old(w)),
        ensures r == cli(), *final(w) == *old(w), r.c, !(r.cpp && r.java), !(r.cpp && r.rust), !(r.java && r.rust), r.skel ==> !r.java && !r.rust,
    { unimplemented!() }
}

// ---------------------------------------------------------------- the code

/*@ idlc/src/main.rs | struct Cli | keep_paths @*/
/*@ idlc/src/main.rs | enum Dumpable | derive_Clone,derive_Copy,keep_paths @*/

/*@ idlc/src/errors.rs | fn check | keep_paths,world_refuse
ret r
sub <T, E: verif_std::fmt::Display>(r: Result<T, E>) => <T, E: Broken>(verif_r: Result<T, E>, verif_world: &mut World)
sub match r => match verif_r
spec {
    requires
        verif_r is Err ==> untouched(*old(verif_world)), // before anything is written
        verif_r is Err ==> may_refuse(), // refuses for a reason
    ensures verif_r == Ok::<T, E>(r), *final(verif_world) == *old(verif_world),
}
@*/

/*@ idlc/src/main.rs | fn compile | keep_paths,time_macro,eq_some,opt_unwrap_or_else,for_into_all,meth_clone,meth_unwrap_or_default,meth_as_bytes,world_refuse,world_check,world_parse,world_dump,world_exit,world_canonicalize,world_expect,world_unwrap,world_get_or_insert,world_run_pass,world_asts,world_parse_to_mir,world_generate_invoke,world_generate_implementation,world_generate,world_open,world_write_all,world_current_dir,world_read_to_string
sub fn compile() => fn compile(verif_world: &mut World)
spec {
    requires
        untouched(*old(verif_world)), old(verif_world)@.loaded == Set::<Ast>::empty(), !old(verif_world)@.dumped,
        reasons(),
    ensures
        final(verif_world)@.written == expected(mir_of(ast_at(input()))), // exactly the expected files, complete
        forall|a: Ast| whole().contains(a) ==> #[trigger] valid(a), // valid: every restriction holds in every file
}
start {
    broadcast use pushed;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
    assert(Set::<Ast>::empty().insert(ast_at(input())).contains(ast_at(input())));
}
before 1 {
    proof { assert(forall|a: Ast| whole().contains(a) ==> distinct_params(a) && acyclic(a) && layouts_ok(structs_of(a))); }
}
loop 0 {
    invariant
        it0.seq().len() == asts@.len(), forall|j: int| 0 <= j < asts@.len() ==> *(#[trigger] it0.seq()[j]) == asts@[j],
        untouched(*verif_world), verif_world@.loaded == whole(), !verif_world@.dumped, reasons(),
        forall|i: int| 0 <= i < asts@.len() ==> whole().contains(*#[trigger] asts@[i]),
        forall|j: int| 0 <= j < it0.index() ==> distinct_params(*#[trigger] asts@[j]) && acyclic(*asts@[j]) && layouts_ok(structs_of(*asts@[j])),
}
body 0 {
    proof { assert(*it0.seq()[it0.index()] == asts@[it0.index()]); assert(whole().contains(*asts@[it0.index()])); }
}
loop 1 {
    invariant
        it1.seq().len() == asts@.len(), forall|j: int| 0 <= j < asts@.len() ==> *(#[trigger] it1.seq()[j]) == asts@[j],
        untouched(*verif_world), verif_world@.loaded == whole(), !verif_world@.dumped, reasons(),
        forall|i: int| 0 <= i < asts@.len() ==> whole().contains(*#[trigger] asts@[i]),
        forall|j: int| 0 <= j < it1.index() ==> resolves(*#[trigger] asts@[j]) && signatures_ok(mir_of(*asts@[j])),
}
body 1 {
    proof { assert(*it1.seq()[it1.index()] == asts@[it1.index()]); assert(whole().contains(*asts@[it1.index()])); }
}
before 2 {
    let ghost files = java_files(mir@);
}
loop 2 {
    invariant
        verif_iter@.len() <= files.len(), verif_iter@ == files.skip(files.len() - verif_iter@.len()),
        output@ == out(), marking.text() == marked(mark_text(), Style::Java), !verif_world@.dumped,
        verif_world@.written == all_files(files.take(files.len() - verif_iter@.len()), marking.text()),
    ensures verif_iter@.len() == 0,
    decreases verif_iter@.len(),
}
body 2 {
    let ghost n = files.len() - verif_iter@.len();
    proof { if n < files.len() { assert(files.skip(n)[0] == files[n]); assert(files.skip(n).skip(1) =~= files.skip(n + 1)); assert(files.take(n + 1).drop_last() =~= files.take(n)); assert(files.take(n + 1).last() == files[n]); } }
}
end 2 {
    proof { assert(Seq::<char>::empty() + marking.text() + files[n].1 =~= marking.text() + files[n].1); assert(verif_world@.written =~= all_files(files.take(n + 1), marking.text())); }
}
after 2 {
    proof { assert(files.take(files.len() as int) =~= files); }
}
before 3 {
    let ghost files = rust_files(mir@);
}
loop 3 {
    invariant
        verif_iter@.len() <= files.len(), verif_iter@ == files.skip(files.len() - verif_iter@.len()),
        output@ == out(), marking.text() == marked(mark_text(), Style::Rust), !verif_world@.dumped,
        verif_world@.written == all_files(files.take(files.len() - verif_iter@.len()), marking.text()),
    ensures verif_iter@.len() == 0,
    decreases verif_iter@.len(),
}
body 3 {
    let ghost n = files.len() - verif_iter@.len();
    proof { if n < files.len() { assert(files.skip(n)[0] == files[n]); assert(files.skip(n).skip(1) =~= files.skip(n + 1)); assert(files.take(n + 1).drop_last() =~= files.take(n)); assert(files.take(n + 1).last() == files[n]); } }
}
end 3 {
    proof { assert(Seq::<char>::empty() + marking.text() + files[n].1 =~= marking.text() + files[n].1); assert(verif_world@.written =~= all_files(files.take(n + 1), marking.text())); }
}
after 3 {
    proof { assert(files.take(files.len() as int) =~= files); }
}
tail {
    proof { assert(verif_world@.written =~= expected(mir_of(ast_at(input())))); }
}
@*/

}
fn main() {}
