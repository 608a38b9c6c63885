//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
//@include ast_structs
//@include ast_all
//@include literal_spec
//@include strs
//@include ast_error
//@contracts prim_new literals
//@include pst_spec
verus! {

// ---------------------------------------------------------------- pest

#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pair<'i, R> { x: std::marker::PhantomData<&'i R> }

#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pairs<'i, R> { x: std::marker::PhantomData<&'i R> }

pub struct PSpan { pub from: usize, pub to: usize }
impl PSpan {
    pub fn start(&self) -> (r: usize) ensures r == self.from, { self.from }
    pub fn end(&self) -> (r: usize) ensures r == self.to, { self.to }
}

impl<'i> View for Pair<'i, Rule> { type V = PT; uninterp spec fn view(&self) -> PT; }
impl<'i> View for Pairs<'i, Rule> { type V = Seq<PT>; uninterp spec fn view(&self) -> Seq<PT>; }

impl<'i> Pair<'i, Rule> {
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule, { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'i str) ensures r@ == self@.text, { unimplemented!() }
    #[verifier::external_body]
    pub fn as_span(&self) -> (r: PSpan) ensures r.from == self@.start, r.to == self@.end, { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Pairs<'i, Rule>) ensures r@ == self@.kids, { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() }
}

impl<'i> Pairs<'i, Rule> {
    #[verifier::external_body]
    pub fn none() -> (r: Self) ensures r@ == Seq::<PT>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, p: Pair<'i, Rule>) ensures final(self)@ == old(self)@.push(p@), { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Pair<'i, Rule>>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<Pair<'i, Rule>>)
        ensures r is Some == (n < old(self)@.len()), r is Some ==> (r->0)@ == old(self)@[n as int] && final(self)@ == old(self)@.skip(n + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Self)
        ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }),
    { unimplemented!() }
    pub fn into_iter(self) -> (r: Self) ensures r@ == self@, { self }
}

pub struct ParseError {}
pub struct IDLParser {}
impl IDLParser {
    #[verifier::external_body]
    pub fn parse<'i>(rule: Rule, s: &'i str) -> (r: Result<Pairs<'i, Rule>, ParseError>)
        requires rule == Rule::idl,
        ensures r is Ok <==> tree_of(s@) is Some, r is Ok ==> r->Ok_0@ == seq![tree_of(s@)->0] && (tree_of(s@)->0).rule == Rule::idl && parsed(tree_of(s@)->0),
    { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<ParseError> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: ParseError) -> Error { Error::AstGenerationFailure }
}
impl From<ParseError> for Error { fn from(_e: ParseError) -> Error { Error::AstGenerationFailure } }

// ---------------------------------------------------------------- std

/// unwrap in debug builds, unwrap_unchecked in release builds: undefined behaviour unless the value is there
#[verifier::external_body]
pub fn present<T>(o: Option<T>) -> (r: T)
    requires o is Some,
    ensures o == Some(r),
{ o.unwrap() }

impl<T, E> OrRefuse<T> for Result<T, E> {
    open spec fn opt(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn or_refuse(self) -> (r: T) { match self { Ok(v) => v, Err(_) => refuse() } }
}

pub open spec fn utf8_len(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
pub open spec fn byte_len(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { byte_len(s.drop_last()) + utf8_len(s.last()) } }

/// &s[a..b]: panics unless both ends are at boundaries of characters
#[verifier::external_body]
pub fn str_range<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && a == #[trigger] byte_len(s@.take(i)) && b == #[trigger] byte_len(s@.take(j)),
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && a == #[trigger] byte_len(s@.take(i)) && b == #[trigger] byte_len(s@.take(j)) ==> r@ == s@.subrange(i, j), // only one i and one j are there
{ &s[a..b] }

pub trait StrLen { spec fn content(&self) -> Seq<char>; fn len_(&self) -> (r: usize) ensures r == byte_len(self.content()); }
impl StrLen for str {
    open spec fn content(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn len_(&self) -> (r: usize) { self.len() }
}

/// trim takes whitespace off, never a slash
pub trait StrTrim { spec fn whole_text(&self) -> Seq<char>; fn trim_(&self) -> (r: &str) ensures self.whole_text().len() > 0 && self.whole_text()[0] == '/' && self.whole_text().last() == '/' ==> r@ == self.whole_text(); }
impl StrTrim for str {
    open spec fn whole_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn trim_(&self) -> (r: &str) { self.trim() }
}

/// digits read as a NonZeroU16
#[verifier::external_body]
pub proof fn counts_read(s: Seq<char>)
    requires digits(s, 10),
    ensures reads_as::<NonZeroU16>(s) is Some <==> 1 <= number(s, 10) <= 65535, reads_as::<NonZeroU16>(s) is Some ==> (reads_as::<NonZeroU16>(s)->0)@ as int == number(s, 10),
{}

/// attributes are compared by their variant
#[verifier::external_body]
pub fn has_attribute(v: &Vec<FunctionAttribute>, a: &FunctionAttribute) -> (r: bool) ensures r == v@.contains(*a), { unimplemented!() }

#[verifier::external_body]
pub fn one() -> (r: NonZeroU16) ensures r@ == 1, { unimplemented!() }

#[verifier::external_body]
pub fn path_from(s: &str) -> (r: PathBuf) ensures path_text(r) == s@, { PathBuf::from(s) }

impl Ident {
    /// `==` with a str compares the characters
    #[verifier::external_body]
    pub fn is(&self, s: &str) -> (r: bool) ensures r == (self.ident@ == s@), { unimplemented!() }
}

pub trait IntoIt<T> { spec fn made(self, t: T) -> bool; fn into_(self) -> (r: T) ensures self.made(r); }
impl<'i> IntoIt<Ident> for Pair<'i, Rule> {
    open spec fn made(self, t: Ident) -> bool { t.ident@ == self@.text }
    fn into_(self) -> (r: Ident) { Ident::from(self) }
}
impl IntoIt<Span> for PSpan {
    open spec fn made(self, t: Span) -> bool { t.start == self.from && t.end == self.to }
    fn into_(self) -> (r: Span) { Span::from(self) }
}

// ---------------------------------------------------------------- lemmas

pub proof fn not_a_type()
    ensures type_named("buffer"@) is None, "buffer"@ != "interface"@,
{
    reveal_strlit("buffer"); reveal_strlit("interface");
    reveal_strlit("uint8"); reveal_strlit("uint16"); reveal_strlit("uint32"); reveal_strlit("uint64");
    reveal_strlit("int8"); reveal_strlit("int16"); reveal_strlit("int32"); reveal_strlit("int64");
    reveal_strlit("float32"); reveal_strlit("float64");
    assert("buffer"@[0] == 'b');
}

pub proof fn in_out()
    ensures "in"@ != "out"@, forall|t: &str| #![trigger t@] (t@ == "in"@ ==> t == "in") && (t@ == "out"@ ==> t == "out"),
{
    reveal_strlit("in"); reveal_strlit("out");
    assert forall|t: &str| #![trigger t@] (t@ == "in"@ ==> t == "in") && (t@ == "out"@ ==> t == "out") by { same_text(t, "in"); same_text(t, "out"); }
}

pub proof fn optional_text()
    ensures forall|t: &str| #![trigger t@] t@ == "optional"@ ==> t == "optional",
{
    assert forall|t: &str| #![trigger t@] t@ == "optional"@ implies t == "optional" by { same_text(t, "optional"); }
}

/// both ends of a documentation are at boundaries of characters, whatever stands in between
pub proof fn doc_ends(s: Seq<char>)
    requires s.len() >= 6, s[0] == '/', s[1] == '*', s[s.len() - 1] == '/',
    ensures byte_len(s.take(2)) == 2, byte_len(s.take(s.len() - 1)) == byte_len(s) - 1, byte_len(s) >= 3,
{
    assert(s.take(2).drop_last() =~= s.take(1));
    assert(s.take(1).drop_last() =~= Seq::empty());
    reveal_with_fuel(byte_len, 4);
    assert(s.drop_last() =~= s.take(s.len() - 1));
    assert(byte_len(s.take(s.len() - 1)) >= 2) by { at_least(s.take(s.len() - 1)); }
}

pub proof fn at_least(s: Seq<char>)
    ensures byte_len(s) >= s.len(),
    decreases s.len()
{
    if s.len() > 0 { at_least(s.drop_last()); }
}

// ---------------------------------------------------------------- C14: what comments change

pub open spec fn ordinary(c: PT) -> bool { c.rule == Rule::COMMENT && doc_of(c) is None }

/// a comment between the tokens of a declaration changes nothing: the AST of a declaration is a function of `toks`
pub proof fn comments_between_tokens(s: Seq<PT>, i: int, c: PT)
    requires 0 <= i <= s.len(), c.rule == Rule::COMMENT,
    ensures toks(s.insert(i, c)) == toks(s),
    decreases s.len()
{
    let n = s.insert(i, c);
    if i == s.len() { assert(n.drop_last() =~= s); assert(n.last() == c); }
    else { comments_between_tokens(s.drop_last(), i, c); assert(n.drop_last() =~= s.drop_last().insert(i, c)); assert(n.last() == s.last()); }
}

/// a comment between declarations changes nothing, a documentation neither
pub proof fn comments_between_declarations(s: Seq<PT>, i: int, c: PT)
    requires 0 <= i <= s.len(), c.rule == Rule::COMMENT,
    ensures declarations(s.insert(i, c)) == declarations(s),
    decreases s.len()
{
    let n = s.insert(i, c);
    if i == s.len() { assert(n.drop_last() =~= s); assert(n.last() == c); }
    else { comments_between_declarations(s.drop_last(), i, c); assert(n.drop_last() =~= s.drop_last().insert(i, c)); assert(n.last() == s.last()); }
}

/// an ordinary comment among the members of an interface changes nothing, not even which documentation is whose
pub proof fn comments_between_members(s: Seq<PT>, i: int, c: PT)
    requires 0 <= i <= s.len(), ordinary(c),
    ensures members(s.insert(i, c)) == members(s), pending(s.insert(i, c)) == pending(s),
    decreases s.len()
{
    let n = s.insert(i, c);
    if i == s.len() { assert(n.drop_last() =~= s); assert(n.last() == c); }
    else { comments_between_members(s.drop_last(), i, c); assert(n.drop_last() =~= s.drop_last().insert(i, c)); assert(n.last() == s.last()); }
}

/// a documentation changes nothing but the documentation of the member that follows it
pub proof fn documentation_between_members(s: Seq<PT>, i: int, c: PT)
    requires 0 <= i <= s.len(), c.rule == Rule::COMMENT,
    ensures
        members(s.insert(i, c)).len() == members(s).len(),
        members(s.take(i)).len() <= members(s).len(),
        forall|j: int| 0 <= j < members(s).len() ==> (#[trigger] members(s.insert(i, c))[j]).0 == members(s)[j].0 && (j != members(s.take(i)).len() ==> members(s.insert(i, c))[j].1 == members(s)[j].1),
        members(s.take(i)).len() < members(s).len() ==> pending(s.insert(i, c)) == pending(s),
    decreases s.len()
{
    let n = s.insert(i, c);
    if i == s.len() { assert(n.drop_last() =~= s); assert(n.last() == c); assert(s.take(i) =~= s); }
    else {
        let d = s.drop_last();
        documentation_between_members(d, i, c);
        assert(n.drop_last() =~= d.insert(i, c));
        assert(n.last() == s.last());
        assert(d.take(i) =~= s.take(i));
    }
}

/// the same for taking a comment out
pub proof fn comments_taken_out(s: Seq<PT>, i: int)
    requires 0 <= i < s.len(), ordinary(s[i]),
    ensures members(s.remove(i)) == members(s), toks(s.remove(i)) == toks(s), declarations(s.remove(i)) == declarations(s),
{
    let r = s.remove(i);
    assert(r.insert(i, s[i]) =~= s);
    comments_between_members(r, i, s[i]);
    comments_between_tokens(r, i, s[i]);
    comments_between_declarations(r, i, s[i]);
}

// ---------------------------------------------------------------- the code

/*@ idlc_ast/src/pst.rs | fn tokens | filter_list
ret r
sub impl Iterator<Item = Pair<'_, Rule>> => Pairs<'_, Rule>
spec { ensures r@ == toks(pair@.kids) }
loop 0 {
    invariant
        verif_iter@ == pair@.kids.skip(pair@.kids.len() - verif_iter@.len()), verif_iter@.len() <= pair@.kids.len(),
        verif_list@ == toks(pair@.kids.take(pair@.kids.len() - verif_iter@.len())),
    ensures verif_iter@.len() == 0,
    decreases verif_iter@.len(),
}
body 0 {
    let ghost n = pair@.kids.len() - verif_iter@.len();
    let ghost s = pair@.kids;
    proof {
        if n < s.len() {
            assert(s.take(n + 1).drop_last() =~= s.take(n));
            assert(s.take(n + 1).last() == s[n]);
            assert(s.skip(n).skip(1) =~= s.skip(n + 1));
            assert(s.skip(n)[0] == s[n]);
        }
    }
}
start {
    proof { assert(pair@.kids.take(0) =~= Seq::empty()); assert(pair@.kids.skip(0) =~= pair@.kids); assert(pair@.kids.take(pair@.kids.len() as int) =~= pair@.kids); }
}
@*/
/*@ idlc_ast/src/pst.rs | fn From/Span::from |
ret r
sub pest::Span => PSpan
spec { ensures r.start == value.from, r.end == value.to }
@*/
/*@ idlc_ast/src/pst.rs | fn From/Ident::from | meth_to_string
ret r
sub impl<R: pest::RuleType + Ord> Ident => impl Ident
sub Pair<'_, R> => Pair<'_, Rule>
spec { ensures r.ident@ == value@.text }
@*/
/*@ idlc_ast/src/pst.rs | fn From/Type::from | opt_map_or_else,meth_to_string
ret r
spec { ensures type_is(r, value@.text) }
@*/
/*@ idlc_ast/src/pst.rs | fn parse_array_len | opt_unwrap_or_else
ret r
spec {
    requires parsed(array@), array@.rule == Rule::bounded_array, defects_refused(),
    ensures r@ as int == length_of(array@), 1 <= length_of(array@) <= 65535,
}
start {
    proof { parts_parsed(array@); counts_read(toks(array@.kids)[0].text); assert(defect(array@) ==> may_refuse()); }
}
@*/
/*@ idlc_ast/src/pst.rs | fn From/ParamTypeIn::from | opt_is_some_and,debug_assert_eq
ret r
sub raw_type == "buffer" => raw_type.is("buffer")
spec {
    requires parsed(rule@), rule@.rule == Rule::param_type, defects_refused(),
    ensures in_is(r, rule@),
}
start {
    proof { parts_parsed(rule@); not_a_type(); assert(defect(rule@) ==> may_refuse()); }
}
@*/
/*@ idlc_ast/src/pst.rs | fn From/ParamTypeOut::from | opt_is_some_and,debug_assert_eq
ret r
sub raw_type == "buffer" => raw_type.is("buffer")
spec {
    requires parsed(rule@), rule@.rule == Rule::param_type, defects_refused(),
    ensures out_is(r, rule@),
}
start {
    proof { parts_parsed(rule@); not_a_type(); assert(defect(rule@) ==> may_refuse()); }
}
@*/
/*@ idlc_ast/src/pst.rs | fn From/Param::from | meth_into
ret r
spec {
    requires parsed(value@), value@.rule == Rule::param, defects_refused(),
    ensures param_is(r, value@),
}
start {
    proof { parts_parsed(value@); in_out(); }
}
@*/
/*@ idlc_ast/src/pst.rs | fn From/FunctionAttribute::from | debug_assert_eq
ret r
spec {
    requires parsed(value@), value@.rule == Rule::attribute,
    ensures r == FunctionAttribute::Optional,
}
start {
    proof { grammar(value@); grammar(value@.kids[0]); optional_text(); }
}
@*/
/*@ idlc_ast/src/pst.rs | fn TryFrom/Documentation::try_from | meth_trim,meth_len,meth_to_string,str_range,debug_assert_eq
ret r
sub Self::Error => Error
spec {
    requires parsed(value@), value@.rule == Rule::COMMENT,
    ensures r is Ok <==> doc_of(value@) is Some, r is Ok ==> doc_of(value@) == Some((r->Ok_0.0)@),
        r is Ok ==> well_doc((r->Ok_0.0)@),
}
start {
    proof { grammar(value@); if value@.kids.len() > 0 { grammar(value@.kids[0]); doc_ends(value@.kids[0].text); } }
}
@*/
/*@ idlc_ast/src/pst.rs | fn parse_include |
ret r
sub PathBuf::from(path.as_str()) => path_from(path.as_str())
spec {
    requires parsed(pair@), pair@.rule == Rule::include,
    ensures node_is(*r, pair@),
}
start {
    proof { grammar(pair@); }
}
@*/
/*@ idlc_ast/src/pst.rs | fn parse_const | opt_unwrap_or_else,opt_unwrap,meth_to_string,meth_into
ret r
spec {
    requires parsed(pair@), pair@.rule == Rule::raw_const, defects_refused(), allow_undefined_behavior == lenient(),
    ensures const_is(r, pair@),
}
start {
    proof { parts_parsed(pair@); assert(defect(pair@) ==> may_refuse()); }
}
@*/

/*@ idlc_ast/src/pst.rs | fn InterfaceNode::new | opt_unwrap,meth_into,meth_to_string,for_into_all
ret r
sub attributes.contains(&attr) => has_attribute(&attributes, &attr)
spec {
    requires parsed(pair@), is_part(pair@.rule), defects_refused(), allow_undefined_behavior == lenient(),
    ensures
        doc is Some ==> member_is(r, pair@, Some(((doc->0).0)@)), doc is None ==> member_is(r, pair@, None),
        r is Function && doc is Some ==> doc_is(r->Function_0.doc, Some(((doc->0).0)@)), // kept: the documentation it was given
        r is Function && doc is None ==> doc_is(r->Function_0.doc, None), // kept
        r is Function ==> r->Function_0.params@.len() == toks(pair@.kids).len() - 2, // taken: as many parameters as tokens
}
start {
    let ghost t = pair@;
    let ghost k = toks(pair@.kids);
    proof {
        parts_parsed(t);
        if t.rule == Rule::function { parts_parsed(k[0]); assert(defect(k[0]) ==> may_refuse()); }
    }
}
loop 0 {
    invariant
        parsed(k[0]), k[0].rule == Rule::function_keyword, shape(k[0]), defect(k[0]) ==> may_refuse(), forall|i: int| 0 <= i < k[0].kids.len() ==> parsed(#[trigger] k[0].kids[i]),
        verif_iter@.len() <= k[0].kids.len(), verif_iter@ == k[0].kids.skip(k[0].kids.len() - verif_iter@.len()),
        attributes@.len() == k[0].kids.len() - verif_iter@.len(), attributes@.len() <= 1,
    ensures verif_iter@.len() == 0,
    decreases verif_iter@.len(),
}
body 0 {
    proof { let n = k[0].kids.len() - verif_iter@.len(); if n < k[0].kids.len() { assert(k[0].kids.skip(n)[0] == k[0].kids[n]); assert(k[0].kids.skip(n).skip(1) =~= k[0].kids.skip(n + 1)); }
        if attributes@.len() == 1 { assert(attributes@[0] == FunctionAttribute::Optional); assert(attributes@.contains(FunctionAttribute::Optional)); } }
}
before 0 {
    proof { assert(k[0].kids.skip(0) =~= k[0].kids); }
}
before 1 {
    proof { assert(k.skip(1).skip(1) =~= k.skip(2)); }
}
loop 1 {
    invariant
        defects_refused(), k.len() >= 2,
        forall|i: int| 2 <= i < k.len() ==> (#[trigger] k[i]).rule == Rule::param,
        forall|i: int| 0 <= i < k.len() ==> parsed(#[trigger] k[i]),
        verif_iter@.len() <= k.len() - 2, verif_iter@ == k.skip(k.len() - verif_iter@.len()),
        params@.len() == k.len() - 2 - verif_iter@.len(),
        forall|i: int| 0 <= i < params@.len() ==> param_is(#[trigger] params@[i], k[i + 2]),
    ensures verif_iter@.len() == 0,
    decreases verif_iter@.len(),
}
body 1 {
    proof { let n = k.len() - verif_iter@.len(); if n < k.len() { assert(k.skip(n)[0] == k[n]); assert(k.skip(n).skip(1) =~= k.skip(n + 1)); } }
}
@*/
/*@ idlc_ast/src/pst.rs | fn parse_struct | meth_into,meth_to_string,for_into_all
ret r
sub unsafe { Count::new_unchecked(1) } => one()
spec {
    requires parsed(pair@), pair@.rule == Rule::raw_struct, defects_refused(),
    ensures node_is(*r, pair@),
}
start {
    let ghost k = toks(pair@.kids);
    proof { parts_parsed(pair@); assert(k.skip(1).skip(1) =~= k.skip(2)); }
}
loop 0 {
    invariant
        defects_refused(), k.len() >= 2,
        forall|i: int| 2 <= i < k.len() ==> (#[trigger] k[i]).rule == Rule::struct_field,
        forall|i: int| 0 <= i < k.len() ==> parsed(#[trigger] k[i]),
        verif_iter@.len() <= k.len() - 2, verif_iter@ == k.skip(k.len() - verif_iter@.len()),
        fields@.len() == k.len() - 2 - verif_iter@.len(),
        forall|i: int| 0 <= i < fields@.len() ==> field_is(#[trigger] fields@[i], k[i + 2]),
    ensures verif_iter@.len() == 0,
    decreases verif_iter@.len(),
}
body 0 {
    proof { let n = k.len() - verif_iter@.len(); if n < k.len() { assert(k.skip(n)[0] == k[n]); assert(k.skip(n).skip(1) =~= k.skip(n + 1)); parts_parsed(k[n]); } }
}
@*/
/*@ idlc_ast/src/pst.rs | fn parse_interface | find_loop,opt_filter,opt_map,meth_into,meth_to_string,for_into_all
ret r
spec {
    requires parsed(pair@), pair@.rule == Rule::interface, defects_refused(), allow_undefined_behavior == lenient(),
    ensures node_is(*r, pair@),
}
start {
    let ghost t = pair@;
    let ghost c = t.kids;
    proof { parts_parsed(t); }
    let ghost m = choose|m: int| 0 < m < t.kids.len() && name_at(t.kids, m);
    proof { parts_parsed(c[m]); assert(c.skip(1) == c.skip(c.len() - c.skip(1).len())); }
}
loop 0 {
    invariant_except_break
        verif_found is None, 1 <= c.len() - interface@.len() <= m, interface@ == c.skip(c.len() - interface@.len()),
    invariant
        0 < m < c.len(), name_at(c, m),
    ensures verif_found is Some, (verif_found->0)@ == c[m], interface@ == c.skip(m + 1),
    decreases interface@.len(),
}
body 0 {
    proof { let n = c.len() - interface@.len(); assert(c.skip(n)[0] == c[n]); assert(c.skip(n).skip(1) =~= c.skip(n + 1)); }
}
before 1 {
    let ghost q = c.skip(m + 1);
    proof { assert(q.skip(0) =~= q); assert(q.take(0) =~= Seq::empty()); }
}
loop 1 {
    invariant
        defects_refused(), allow_undefined_behavior == lenient(),
        0 < m < c.len(), name_at(c, m), q == c.skip(m + 1),
        forall|i: int| 0 <= i < c.len() ==> parsed(#[trigger] c[i]),
        verif_iter@.len() <= q.len(), verif_iter@ == q.skip(q.len() - verif_iter@.len()),
        doc_is(comment, pending(q.take(q.len() - verif_iter@.len()))),
        all_members(iface_nodes@, members(q.take(q.len() - verif_iter@.len()))),
    ensures verif_iter@.len() == 0,
    decreases verif_iter@.len(),
}
body 1 {
    let ghost n = q.len() - verif_iter@.len();
    proof {
        if n < q.len() {
            assert(q.skip(n)[0] == q[n]); assert(q.skip(n).skip(1) =~= q.skip(n + 1)); assert(q[n] == c[m + 1 + n]);
            assert(q.take(n + 1).drop_last() =~= q.take(n)); assert(q.take(n + 1).last() == q[n]);
        }
    }
}
after 1 {
    proof { assert(q.take(q.len() as int) =~= q); }
}
@*/
/*@ idlc_ast/src/pst.rs | fn parse_to_ast | opt_unwrap,for_into_all
ret r
spec {
    requires defects_refused(), allow_undefined_behavior == lenient(),
    ensures r is Ok <==> tree_of(input@) is Some, r is Ok ==> nodes_are(r->Ok_0@, declarations((tree_of(input@)->0).kids)),
}
start {
    let ghost t = tree_of(input@)->0;
    let ghost q = t.kids;
    proof { if tree_of(input@) is Some && parsed(t) { grammar(t); } assert(q.skip(0) =~= q); assert(q.take(0) =~= Seq::empty()); }
}
loop 0 {
    invariant
        defects_refused(), allow_undefined_behavior == lenient(),
        forall|i: int| 0 <= i < q.len() ==> parsed(#[trigger] q[i]),
        verif_iter@.len() <= q.len(), verif_iter@ == q.skip(q.len() - verif_iter@.len()),
        nodes_are(nodes@, declarations(q.take(q.len() - verif_iter@.len()))),
    ensures verif_iter@.len() == 0,
    decreases verif_iter@.len(),
}
body 0 {
    let ghost n = q.len() - verif_iter@.len();
    proof {
        if n < q.len() {
            assert(q.skip(n)[0] == q[n]); assert(q.skip(n).skip(1) =~= q.skip(n + 1));
            assert(q.take(n + 1).drop_last() =~= q.take(n)); assert(q.take(n + 1).last() == q[n]);
        }
    }
}
after 0 {
    proof { assert(q.take(q.len() as int) =~= q); }
}
@*/

}
fn main() {}
