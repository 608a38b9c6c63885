// What the extracted text uses and the verifier does not have: assumed contracts, listed in the evidence of every check.
use vstd::prelude::*;
#[allow(unused_imports)]
use std::rc::Rc;

verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);

/// panic!, unrecoverable!, a failed assert: the compiler stops with a diagnostic. Only permitted for a reason.
/// whether the input gives the compiler a reason to refuse it: uninterpreted, so a function may only refuse where its
/// preconditions grant it (`requires violation ==> may_refuse()`)
pub uninterp spec fn may_refuse() -> bool;

#[verifier::external_body]
pub fn refuse() -> !
    requires may_refuse(),
{ panic!() }

/// unwrap() and expect() where a missing value refuses the input
pub trait OrRefuse<T>: Sized {
    spec fn opt(self) -> Option<T>;

    fn or_refuse(self) -> (r: T)
        requires self.opt() is None ==> may_refuse(),
        ensures self.opt() == Some(r);
}

impl<T> OrRefuse<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }

    fn or_refuse(self) -> (r: T)
    {
        match self { Some(v) => v, None => refuse() }
    }
}

/// unreachable!: has to be proved unreachable
#[verifier::external_body]
pub fn unreachable_code() -> !
    requires false,
{ panic!() }

/// Option<String>::as_deref
pub trait AsDeref {
    spec fn chars(&self) -> Option<Seq<char>>;

    fn as_deref_(&self) -> (r: Option<&str>)
        ensures match r { Some(s) => self.chars() == Some(s@), None => self.chars() is None };
}

impl AsDeref for Option<String> {
    open spec fn chars(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } }

    #[verifier::external_body]
    fn as_deref_(&self) -> (r: Option<&str>)
    { self.as_deref() }
}

/// usize::from
pub trait ToUsize: Sized {
    spec fn to_nat(self) -> nat;

    fn to_usize_(self) -> (r: usize)
        ensures r == self.to_nat();
}

impl ToUsize for u16 {
    open spec fn to_nat(self) -> nat { self as nat }

    fn to_usize_(self) -> (r: usize) { self as usize }
}

impl ToUsize for bool {
    open spec fn to_nat(self) -> nat { if self { 1 } else { 0 } }

    fn to_usize_(self) -> (r: usize) { if self { 1 } else { 0 } }
}

pub fn to_usize<T: ToUsize>(x: T) -> (r: usize)
    ensures r == x.to_nat(),
{ x.to_usize_() }

#[verifier::external_body]
pub fn any_string() -> (r: String)
{ String::new() }

}
