// Constants in the target languages: which texts are constants of a type and what they denote (C17).
verus! {

/// the mathematical value of an integer expression
pub open spec fn distance(n: int) -> int { if n < 0 { -n } else { n } }

/// the type C gives to the argument of the INTn_C macro of a type, after promotion
pub open spec fn c_type(p: Primitive) -> Primitive {
    match p { Primitive::Uint8 | Primitive::Uint16 | Primitive::Int8 | Primitive::Int16 => Primitive::Int32, _ => p }
}

pub open spec fn c_macro(p: Primitive) -> Seq<char> {
    match p {
        Primitive::Uint8 => "UINT8_C"@, Primitive::Uint16 => "UINT16_C"@, Primitive::Uint32 => "UINT32_C"@, Primitive::Uint64 => "UINT64_C"@,
        Primitive::Int8 => "INT8_C"@, Primitive::Int16 => "INT16_C"@, Primitive::Int32 => "INT32_C"@, Primitive::Int64 => "INT64_C"@,
        _ => ""@,
    }
}

/// what the macro of the type makes a constant of that type: C reads the sign apart from the number, which has to fit on its own
pub open spec fn c_literal(p: Primitive, s: Seq<char>) -> bool {
    &&& hex_literal(s) || dec_literal(s)
    &&& no_octal(s)
    &&& is_unsigned(p) ==> !signed(s)
    &&& distance(denotes(s)) <= highest(c_type(p))
}

/// an expression of C and C++ of the type and of the value `n`
pub open spec fn c_integer(p: Primitive, t: Seq<char>, n: int) -> bool {
    ||| exists|s: Seq<char>| #[trigger] c_literal(p, s) && t == c_macro(p) + "("@ + s + ")"@ && denotes(s) == n
    ||| exists|s: Seq<char>| #[trigger] c_literal(p, s) && t == "("@ + c_macro(p) + "("@ + s + ") - 1)"@ && denotes(s) - 1 == n && lowest(c_type(p)) <= n
}

/// an expression of C and C++ with the type and the value of the literal `s`
pub open spec fn c_constant(p: Primitive, t: Seq<char>, s: Seq<char>) -> bool {
    match p {
        Primitive::Float32 => t == "("@ + s + "F)"@,
        Primitive::Float64 => t == "("@ + s + ")"@,
        _ => c_integer(p, t, denotes(s)),
    }
}

/// i32, i64 and u64 displayed
pub open spec fn displayed(n: int) -> Seq<char> { if n < 0 { seq!['-'] + numeral(-n) } else { numeral(n) } }
/// what a numeral denotes
#[verifier::external_body]
pub broadcast proof fn numeral_value(n: int)
    requires n >= 0,
    ensures number(#[trigger] numeral(n), 10) == n, dec_literal(numeral(n)), digits(numeral(n), 10), numeral(n).len() == 1 || numeral(n)[0] != '0',
{}
pub proof fn displayed_value(n: int)
    ensures dec_literal(displayed(n)), denotes(displayed(n)) == n, no_octal(displayed(n)), !hex(displayed(n)), signed(displayed(n)) == (n < 0),
{
    broadcast use numeral_value;
    let s = displayed(n);
    let m = numeral(if n < 0 { -n } else { n });
    assert(magnitude(s) =~= m && !hex(s)) by {
        digits_visible(m);
        if n < 0 { assert(s[0] == '-'); assert(s.skip(1) =~= m); } else { assert(s[0] == m[0]); }
    }
}
pub proof fn digits_visible(s: Seq<char>)
    requires digits(s, 10),
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '-' && s[i] != 'x' && s[i] != '+' && s[i] != '.',
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '-' && s[i] != 'x' && s[i] != '+' && s[i] != '.' by { assert(digit(s[i], 10) is Some); }
}
pub proof fn hex_visible(s: Seq<char>)
    requires digits(s, 16),
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '-' && s[i] != 'x' && s[i] != '+' && s[i] != '.',
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '-' && s[i] != 'x' && s[i] != '+' && s[i] != '.' by { assert(digit(s[i], 16) is Some); }
}
pub proof fn number_positive(s: Seq<char>, radix: int)
    requires digits(s, radix) || s.len() == 0, radix == 10 || radix == 16,
    ensures number(s, radix) >= 0,
    decreases s.len()
{
    if s.len() > 0 {
        assert(digit(s.last(), radix) is Some);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] digit(s.drop_last()[i], radix)) is Some by { assert(s.drop_last()[i] == s[i]); }
        number_positive(s.drop_last(), radix);
        assert(number(s.drop_last(), radix) * radix >= 0) by (nonlinear_arith) requires number(s.drop_last(), radix) >= 0, radix >= 0;
    }
}
pub proof fn sign_decides(s: Seq<char>)
    requires hex_literal(s) || dec_literal(s),
    ensures signed(s) ==> denotes(s) <= 0, !signed(s) ==> denotes(s) >= 0,
{
    if hex(s) { if hex_literal(s) { number_positive(magnitude(s).skip(2), 16); } else { digits_visible(magnitude(s)); } } else { number_positive(magnitude(s), 10); }
}

/// std: decimals read as integers
#[verifier::external_body]
pub broadcast proof fn integers_read(s: Seq<char>)
    ensures (#[trigger] reads_as::<i64>(s)) == (if parses(s, 10, i64::MIN as int, i64::MAX as int) { Some(read_as_int(s, 10) as i64) } else { None }),
{}
#[verifier::external_body]
pub broadcast proof fn naturals_read(s: Seq<char>)
    ensures (#[trigger] reads_as::<u64>(s)) == (if parses(s, 10, 0, u64::MAX as int) { Some(read_as_int(s, 10) as u64) } else { None }),
{}

impl AsText for i32 {
    open spec fn as_text(&self) -> Seq<char> { displayed(*self as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for i64 {
    open spec fn as_text(&self) -> Seq<char> { displayed(*self as int) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.to_string() }
}
impl AsText for Ident {
    open spec fn as_text(&self) -> Seq<char> { self.ident@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { self.ident.clone() }
}

/// `{:#x}` of a number
pub uninterp spec fn hexadecimal(n: int) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn hexadecimal_value(n: int)
    requires n >= 0,
    ensures (#[trigger] hexadecimal(n)).len() > 2, hexadecimal(n)[0] == '0', hexadecimal(n)[1] == 'x', digits(hexadecimal(n).skip(2), 16), number(hexadecimal(n).skip(2), 16) == n,
{}
pub trait AsHex { spec fn as_hex(&self) -> Seq<char>; fn to_hex_(&self) -> (r: String) ensures r@ == self.as_hex(); }
impl AsHex for u64 {
    open spec fn as_hex(&self) -> Seq<char> { hexadecimal(*self as int) }
    #[verifier::external_body]
    fn to_hex_(&self) -> (r: String) { format!("{:#x}", self) }
}

#[verifier::external_body]
pub fn is_value(parsed: &std::result::Result<i64, std::num::ParseIntError>, minimum: i64) -> (r: bool)
    ensures r == (*parsed is Ok && parsed->Ok_0 == minimum),
{ *parsed == Ok(minimum) }


/// std's upper case of a text: not interpreted
pub uninterp spec fn uppercase(s: Seq<char>) -> Seq<char>;
impl Ident {
    #[verifier::external_body]
    pub fn to_uppercase_(&self) -> (r: String) ensures r@ == uppercase(self.ident@) { self.ident.to_uppercase() }
}

}
