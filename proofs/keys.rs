// HashMap and HashSet with the specification of std's, for any key type: keys are the same when Eq says so. `key` stands for
// the class of a value under Eq; that equal keys hash alike and that Clone gives an equal key is assumed of the key type.
verus! {

pub struct Key(pub int);

pub uninterp spec fn key<T>(t: T) -> Key;

pub broadcast axiom fn clone_keeps_key<T: Clone>(a: T, b: T)
    requires #[trigger] cloned(a, b),
    ensures key(a) == key(b);

pub broadcast axiom fn clone_keeps_key_too<T: Clone>(a: T, b: T)
    requires #[trigger] call_ensures(T::clone, (&a,), b),
    ensures key(a) == key(b);

pub open spec fn keys<T>(v: Seq<T>) -> Seq<Key> { v.map_values(|t: T| key(t)) }

pub open spec fn refkeys<T>(v: Seq<&T>) -> Seq<Key> { v.map_values(|t: &T| key(*t)) }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { m: std::collections::HashSet<T> }

impl<T> View for HashSet<T> {
    type V = Set<Key>;
    uninterp spec fn view(&self) -> Set<Key>;
}

/// some order of the elements, each once
pub struct Refs<'a, T> { pub v: Vec<&'a T>, pub i: usize }

impl<'a, T> Refs<'a, T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.v@.len() }

    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).v@ == old(self).v@,
            match r { Some(x) => old(self).i < old(self).v@.len() && x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1,
                None => old(self).i == old(self).v@.len() && final(self).i == old(self).i },
    {
        if self.i < self.v.len() {
            let x = self.v[self.i];
            self.i = self.i + 1;
            Some(x)
        } else {
            None
        }
    }

    pub fn into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
}

impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<Key>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Set::<Key>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains(&self, k: &T) -> (r: bool)
        ensures r == self@.contains(key(*k)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Set::<Key>::empty()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &T) -> (r: bool)
        ensures r == old(self)@.contains(key(*k)), final(self)@ == old(self)@.remove(key(*k)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: T) -> (r: bool)
        ensures r == !old(self)@.contains(key(k)), final(self)@ == old(self)@.insert(key(k)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn into_iter(&self) -> (r: Refs<'_, T>)
        ensures r.i == 0, refkeys(r.v@).to_set() == self@, refkeys(r.v@).no_duplicates(),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }

impl<K, V> View for HashMap<K, V> {
    type V = Map<Key, V>;
    uninterp spec fn view(&self) -> Map<Key, V>;
}

impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Key, V>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(key(k), v),
            r == (if old(self)@.dom().contains(key(k)) { Some(old(self)@[key(k)]) } else { None }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(key(*k)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.dom() == Set::<Key>::empty()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(key(*k)) { Some(&self@[key(*k)]) } else { None }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn keys(&self) -> (r: Refs<'_, K>)
        ensures r.i == 0, refkeys(r.v@).to_set() == self@.dom(), refkeys(r.v@).no_duplicates(),
    { unimplemented!() }
}

impl<K, T> HashMap<K, HashSet<T>> {
    /// entry(k).or_default()
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut HashSet<T>)
        ensures
            old(self)@.dom().contains(key(k)) ==> *r == old(self)@[key(k)],
            !old(self)@.dom().contains(key(k)) ==> r@ == Set::<Key>::empty(),
            final(self)@ == old(self)@.insert(key(k), *final(r)),
    { unimplemented!() }
}

/// the slice method: whether an equal value is there
pub trait ContainsKey<T> {
    spec fn items(&self) -> Seq<T>;

    fn contains(&self, k: &T) -> (r: bool)
        ensures r == keys(self.items()).contains(key(*k));
}

impl<T> ContainsKey<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }

    #[verifier::external_body]
    fn contains(&self, k: &T) -> (r: bool)
    { unimplemented!() }
}

}
