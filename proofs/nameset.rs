// HashSet of names, with the specification of std's: names are equal when their characters are (unit ident proves it of Ident's eq).
verus! {

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { m: std::collections::HashSet<T> }

impl<'a> View for HashSet<&'a Ident> {
    type V = Set<Seq<char>>;
    uninterp spec fn view(&self) -> Set<Seq<char>>;
}

impl<'a> HashSet<&'a Ident> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<Seq<char>>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: &'a Ident) -> (r: bool)
        ensures r == !old(self)@.contains(k.ident@), final(self)@ == old(self)@.insert(k.ident@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &'a Ident) -> (r: Option<&&'a Ident>)
        ensures r is Some <==> self@.contains(k.ident@),
    { unimplemented!() }
}

}
