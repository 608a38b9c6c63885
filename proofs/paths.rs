// Paths and the file system, which does not change while the compiler runs. A path is what its Eq sees, its components: the
// paths that occur end in ".idl" or name a directory, and no two of the same components name different files.
verus! {

#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }

pub type Path = PathBuf;

#[verifier::external]
impl PartialEq for PathBuf { fn eq(&self, o: &Self) -> bool { self.p == o.p } }

#[verifier::external]
impl Eq for PathBuf {}

#[verifier::external]
impl std::hash::Hash for PathBuf { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.p.hash(h) } }

impl View for PathBuf {
    type V = Key;
    uninterp spec fn view(&self) -> Key;
}

pub broadcast axiom fn path_key(p: PathBuf)
    ensures #[trigger] key(p) == p@;

impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}

/// a file is there
pub uninterp spec fn fs_file(k: Key) -> bool;
/// the one name of what a path leads to
pub uninterp spec fn fs_canon(k: Key) -> Option<Key>;
pub uninterp spec fn fs_join(d: Key, p: Key) -> Key;
pub uninterp spec fn fs_parent(p: Key) -> Option<Key>;
pub uninterp spec fn fs_empty() -> Key;

/// a bare name has no directory part
pub open spec fn bare(p: Key) -> bool { fs_parent(p) == Some(fs_empty()) }

/// canonical paths are absolute and their own canonical form
pub broadcast axiom fn canonical(k: Key)
    ensures #[trigger] fs_canon(k) is Some ==> fs_canon(fs_canon(k)->Some_0) == fs_canon(k) && !bare(fs_canon(k)->Some_0);

pub broadcast axiom fn absolute(d: Key, k: Key)
    ensures fs_canon(k) == Some(k) ==> #[trigger] fs_join(d, k) == k;

pub broadcast axiom fn file_canonical(k: Key)
    ensures #[trigger] fs_file(k) ==> fs_canon(k) is Some;

pub struct IoError { pub x: u8 }

#[verifier::external_body]
pub struct PathDisplay { p: u8 }

impl View for PathDisplay {
    type V = Key;
    uninterp spec fn view(&self) -> Key;
}

impl PathDisplay {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        ensures r@.len() == 0 <==> self@ == fs_empty(),
    { unimplemented!() }
}

impl PathBuf {
    #[verifier::external_body]
    pub fn from(p: &Path) -> (r: PathBuf)
        ensures r@ == p@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf)
        ensures r@ == self@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures match r { Some(p) => fs_parent(self@) == Some(p@), None => fs_parent(self@) is None },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn join(&self, p: &Path) -> (r: PathBuf)
        ensures r@ == fs_join(self@, p@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn display(&self) -> (r: PathDisplay)
        ensures r@ == self@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool)
        ensures r == fs_file(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
        ensures match r { Ok(p) => fs_canon(self@) == Some(p@), Err(_) => fs_canon(self@) is None },
    { unimplemented!() }
}

impl OrRefuse<PathBuf> for Result<PathBuf, IoError> {
    open spec fn opt(self) -> Option<PathBuf> { match self { Ok(p) => Some(p), Err(_) => None } }

    fn or_refuse(self) -> (r: PathBuf)
    {
        match self { Ok(v) => v, Err(_) => refuse() }
    }
}

}
