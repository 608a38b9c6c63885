// What the visitors of the backends write of a slot of the argument array.
verus! {

#[verifier::opaque]
pub open spec fn holds(e: Seq<char>, p: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| e == #[trigger] (a + p + b) }

pub proof fn holds_in(a: Seq<char>, p: Seq<char>, b: Seq<char>)
    ensures holds(a + p + b, p),
{
    reveal(holds);
}

pub broadcast proof fn holds_last(a: Seq<char>, p: Seq<char>)
    ensures holds(#[trigger] (a + p), p),
{
    holds_in(a, p, Seq::empty());
    assert(a + p =~= a + p + Seq::<char>::empty());
}

pub broadcast proof fn holds_self(p: Seq<char>)
    ensures #[trigger] holds(p, p),
{
    holds_in(Seq::empty(), p, Seq::empty());
    assert(p =~= Seq::<char>::empty() + p + Seq::<char>::empty());
}

pub broadcast proof fn holds_before(e: Seq<char>, y: Seq<char>, p: Seq<char>)
    requires #[trigger] holds(e, p),
    ensures holds(#[trigger] (e + y), p),
{
    reveal(holds);
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| e == #[trigger] (a + p + b);
    assert(e + y =~= a + p + (b + y));
}

pub broadcast proof fn holds_within(x: Seq<char>, e: Seq<char>, p: Seq<char>)
    requires #[trigger] holds(e, p),
    ensures holds(#[trigger] (x + e), p),
{
    reveal(holds);
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| e == #[trigger] (a + p + b);
    assert(x + e =~= (x + a) + p + b);
}

/// three neighbouring pieces
pub broadcast proof fn holds_three(x: Seq<char>, p: Seq<char>, d: Seq<char>, q: Seq<char>)
    ensures holds(#[trigger] (x + p + d + q), p + d + q),
{
    holds_in(x, p + d + q, Seq::empty());
    assert(x + p + d + q =~= x + (p + d + q) + Seq::<char>::empty());
}

pub broadcast proof fn holds_first(p: Seq<char>, d: Seq<char>, q: Seq<char>)
    ensures #![trigger (p + d + q)] holds(p + d + q, p + d + q),
{
    holds_self(p + d + q);
}

/// five neighbouring pieces
pub broadcast proof fn holds_five(x: Seq<char>, p: Seq<char>, d: Seq<char>, q: Seq<char>, r: Seq<char>, s: Seq<char>)
    ensures holds(#[trigger] (x + p + d + q + r + s), p + d + q + r + s),
{
    holds_in(x, p + d + q + r + s, Seq::empty());
    assert(x + p + d + q + r + s =~= x + (p + d + q + r + s) + Seq::<char>::empty());
}

pub broadcast group text { holds_last, holds_self, holds_before, holds_within, holds_three, holds_first, holds_five }

/// the decimal digits of a number
pub uninterp spec fn numeral(n: int) -> Seq<char>;

/// `a[i]`, the i-th slot of the argument array
pub open spec fn slot(i: int) -> Seq<char> { "a["@ + numeral(i) + "]"@ }

/// the text uses the i-th slot
pub open spec fn uses(t: Seq<char>, i: int) -> bool { holds(t, slot(i)) }

/// n more texts, each about a slot of its own
pub open spec fn told(was: Seq<String>, now: Seq<String>, from: int, n: int) -> bool {
    grown(was, now, n) && forall|i: int| was.len() <= i < now.len() ==> uses((#[trigger] now[i])@, from + i - was.len())
}

/// one more text, about n slots
pub open spec fn told_all(was: Seq<String>, now: Seq<String>, from: int, n: int) -> bool {
    grown(was, now, 1) && all_used(now.last()@, from, n)
}
#[verifier::opaque]
pub open spec fn all_used(t: Seq<char>, from: int, n: int) -> bool {
    forall|i: int| from <= i < from + n ==> #[trigger] uses(t, i)
}
pub broadcast proof fn used_none(t: Seq<char>, from: int)
    ensures #[trigger] all_used(t, from, 0),
{
    reveal(all_used);
}
pub broadcast proof fn used_next(t: Seq<char>, from: int, n: int, i: int)
    requires #[trigger] all_used(t, from, n), #[trigger] holds(t, "a["@ + numeral(i) + "]"@), i == from + n,
    ensures all_used(t, from, n + 1),
{
    reveal(all_used);
}
pub broadcast proof fn used_before(e: Seq<char>, y: Seq<char>, from: int, n: int)
    requires #[trigger] all_used(e, from, n),
    ensures all_used(#[trigger] (e + y), from, n),
{
    reveal(all_used);
    assert forall|i: int| from <= i < from + n implies #[trigger] uses(e + y, i) by { assert(uses(e, i)); holds_before(e, y, slot(i)); }
}
pub broadcast proof fn used_within(x: Seq<char>, e: Seq<char>, from: int, n: int)
    requires #[trigger] all_used(e, from, n),
    ensures all_used(#[trigger] (x + e), from, n),
{
    reveal(all_used);
    assert forall|i: int| from <= i < from + n implies #[trigger] uses(x + e, i) by { assert(uses(e, i)); holds_within(x, e, slot(i)); }
}
pub broadcast group all_slots { used_none, used_next, used_before, used_within }

/// texts added at the end, nothing else changed
pub open spec fn grown(was: Seq<String>, now: Seq<String>, n: int) -> bool {
    now.len() == was.len() + n && forall|i: int| #![trigger now[i]] #![trigger was[i]] 0 <= i < was.len() ==> now[i] == was[i]
}

#[verifier::external_body]
pub fn cat(a: String, b: String) -> (r: String)
    ensures r@ == a@ + b@,
{ a + &b }

pub trait AsText { spec fn as_text(&self) -> Seq<char>; fn to_string_(&self) -> (r: String) ensures r@ == self.as_text(); }
impl AsText for str {
    open spec fn as_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for String {
    open spec fn as_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for Ident {
    open spec fn as_text(&self) -> Seq<char> { self.ident@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.ident.to_string() }
}
impl AsText for usize {
    open spec fn as_text(&self) -> Seq<char> { numeral(*self as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for u8 {
    open spec fn as_text(&self) -> Seq<char> { numeral(*self as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for u16 {
    open spec fn as_text(&self) -> Seq<char> { numeral(*self as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for u32 {
    open spec fn as_text(&self) -> Seq<char> { numeral(*self as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for Count {
    open spec fn as_text(&self) -> Seq<char> { numeral(self@ as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}

pub trait PushStr: Sized {
    spec fn chars(self) -> Seq<char>;
    fn push_str_(&mut self, e: &str) ensures final(self).chars() == old(self).chars() + e@;
}
impl PushStr for String {
    open spec fn chars(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn push_str_(&mut self, e: &str) { unimplemented!() }
}

/// whether a name contains a text
pub trait Look { fn contains_<T>(&self, p: T) -> bool; }
impl Look for Ident {
    #[verifier::external_body]
    fn contains_<T>(&self, p: T) -> bool { unimplemented!() }
}
impl Look for String {
    #[verifier::external_body]
    fn contains_<T>(&self, p: T) -> bool { unimplemented!() }
}
impl Ident {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.ident@, { unimplemented!() }
}

/// the generator gives up
#[verifier::external_body]
pub fn give_up() -> !
{ panic!() }

}
