verus! {

// ---------------------------------------------------------------- std: str, the integer and the float parsers

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseFloatError(core::num::ParseFloatError);

/// from_str_radix: an optional sign (`-` for signed types only) and digits, of a value in the range of the type
pub open spec fn parses(s: Seq<char>, radix: int, lo: int, hi: int) -> bool {
    if s.len() > 0 && s[0] == '+' { digits(s.skip(1), radix) && number(s.skip(1), radix) <= hi }
    else if signed(s) && lo < 0 { digits(s.skip(1), radix) && lo <= -number(s.skip(1), radix) }
    else { digits(s, radix) && number(s, radix) <= hi }
}

/// what a text that parses stands for
pub open spec fn read_as_int(s: Seq<char>, radix: int) -> int {
    if s.len() > 0 && s[0] == '+' { number(s.skip(1), radix) } else if signed(s) { -number(s.skip(1), radix) } else { number(s, radix) }
}

pub assume_specification [u8::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<u8, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, 0, u8::MAX as int);
pub assume_specification [u16::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<u16, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, 0, u16::MAX as int);
pub assume_specification [u32::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<u32, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, 0, u32::MAX as int);
pub assume_specification [u64::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<u64, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, 0, u64::MAX as int);
pub assume_specification [u128::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<u128, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, 0, u128::MAX as int), r is Ok && digits(s@, radix as int) ==> r->Ok_0 as int == number(s@, radix as int);
pub assume_specification [i8::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<i8, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, i8::MIN as int, i8::MAX as int);
pub assume_specification [i16::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<i16, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, i16::MIN as int, i16::MAX as int);
pub assume_specification [i32::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<i32, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, i32::MIN as int, i32::MAX as int);
pub assume_specification [i64::from_str_radix] (s: &str, radix: u32) -> (r: std::result::Result<i64, std::num::ParseIntError>)
    ensures r is Ok <==> parses(s@, radix as int, i64::MIN as int, i64::MAX as int), r is Ok ==> r->Ok_0 as int == read_as_int(s@, radix as int);

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
    fn from_str(s: &str) -> std::result::Result<Self, Self::Err>;
}

pub assume_specification<F: std::str::FromStr> [str::parse::<F>] (s: &str) -> (r: std::result::Result<F, <F as std::str::FromStr>::Err>)
    ensures r is Ok <==> reads_as::<F>(s@) is Some, r is Ok ==> reads_as::<F>(s@) == Some(r->Ok_0);

pub assume_specification [f32::is_infinite] (f: f32) -> (r: bool)
    ensures r == infinite32(f);
pub assume_specification [f64::is_infinite] (f: f64) -> (r: bool)
    ensures r == infinite64(f);

/// decimals, with a fraction or without, and numerals read as floats
#[verifier::external_body]
pub broadcast proof fn floats_read(s: Seq<char>)
    requires dec_literal(s) || frac_literal(s),
    ensures (#[trigger] reads_as::<f32>(s)) is Some, (#[trigger] reads_as::<f64>(s)) is Some,
{}
#[verifier::external_body]
pub broadcast proof fn numerals(n: int)
    requires n >= 0,
    ensures dec_literal(#[trigger] numeral(n)), digits(numeral(n), 10), numeral(n).len() == 1 || numeral(n)[0] != '0',
{}

pub open spec fn visible(c: char) -> bool { c == '-' || digit(c, 36) is Some }

pub assume_specification [str::trim] (s: &str) -> (r: &str)
    ensures s@.len() > 0 && visible(s@[0]) && visible(s@.last()) ==> r@ == s@;

pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }

pub open spec fn replaced(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || p.len() == 0 { s }
    else if has_prefix(s, p) { q + replaced(s.skip(p.len() as int), p, q) }
    else { seq![s[0]] + replaced(s.skip(1), p, q) }
}

pub open spec fn without_leading(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && s[0] == c { without_leading(s.skip(1), c) } else { s }
}

/// a pattern of str's methods: a char or a str
pub trait Pat { spec fn pat(&self) -> Seq<char>; }
impl Pat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl Pat for &str { open spec fn pat(&self) -> Seq<char> { self@ } }

pub open spec fn position(s: Seq<char>, c: char) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None } else if s[0] == c { Some(0) } else { match position(s.skip(1), c) { Some(i) => Some(i + 1), None => None } }
}

pub trait StrMethods {
    spec fn text(&self) -> Seq<char>;
    fn starts_with_<P: Pat>(&self, p: P) -> (r: bool) ensures r == has_prefix(self.text(), p.pat());
    fn strip_prefix_<P: Pat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some == has_prefix(self.text(), p.pat()), r is Some ==> r->0@ == self.text().skip(p.pat().len() as int);
    fn replace_<P: Pat>(&self, p: P, q: &str) -> (r: String) requires p.pat().len() > 0 ensures r@ == replaced(self.text(), p.pat(), q@);
    fn trim_start_matches_(&self, c: char) -> (r: &str) ensures r@ == without_leading(self.text(), c);
    fn split_once_(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures r is Some == position(self.text(), c) is Some,
            r is Some ==> (r->0).0@ == self.text().take(position(self.text(), c)->0) && (r->0).1@ == self.text().skip(position(self.text(), c)->0 + 1);
}
impl StrMethods for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn starts_with_<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn strip_prefix_<P: Pat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn replace_<P: Pat>(&self, p: P, q: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn trim_start_matches_(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn split_once_(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
}

#[verifier::external_body]
pub fn cat(a: String, b: String) -> (r: String)
    ensures r@ == a@ + b@,
{ a + &b }

pub trait AsText { spec fn as_text(&self) -> Seq<char>; fn to_string_(&self) -> (r: String) ensures r@ == self.as_text(); }
impl AsText for u128 {
    open spec fn as_text(&self) -> Seq<char> { numeral(*self as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for str {
    open spec fn as_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for String {
    open spec fn as_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}

/// strs of the same characters are the same value (a match compares characters)
#[verifier::external_body]
pub proof fn same_text(a: &str, b: &str)
    ensures a@ == b@ ==> a == b,
{}

pub proof fn match_types(t: &str)
    ensures t@ == "uint8"@ ==> t == "uint8", t@ == "uint16"@ ==> t == "uint16", t@ == "uint32"@ ==> t == "uint32", t@ == "uint64"@ ==> t == "uint64",
        t@ == "int8"@ ==> t == "int8", t@ == "int16"@ ==> t == "int16", t@ == "int32"@ ==> t == "int32", t@ == "int64"@ ==> t == "int64",
        t@ == "float32"@ ==> t == "float32", t@ == "float64"@ ==> t == "float64",
{
    same_text(t, "uint8"); same_text(t, "uint16"); same_text(t, "uint32"); same_text(t, "uint64");
    same_text(t, "int8"); same_text(t, "int16"); same_text(t, "int32"); same_text(t, "int64");
    same_text(t, "float32"); same_text(t, "float64");
}

}
