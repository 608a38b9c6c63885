// HashMap / HashSet keyed by names, with the specification of std's: keys are equal when their characters are.
verus! {

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct NameMap<T> { m: std::collections::HashMap<String, T> }

impl<T> View for NameMap<T> {
    type V = Map<Seq<char>, T>;
    uninterp spec fn view(&self) -> Map<Seq<char>, T>;
}

impl<T> NameMap<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Seq<char>, T>::empty(),
    { NameMap { m: std::collections::HashMap::new() } }

    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: T) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
    { self.m.insert(k, v) }

    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&T>)
        ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }),
    { self.m.get(k) }
}

}
