// Literals of constants: the texts the grammar admits and the number each of them denotes (C17).
verus! {

/// value of a character as a digit
pub open spec fn digit(c: char, radix: int) -> Option<int> {
    let d = if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 } else { 99 };
    if d < radix { Some(d) } else { None }
}

pub open spec fn digits(s: Seq<char>, radix: int) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] digit(s[i], radix)) is Some }

pub open spec fn number(s: Seq<char>, radix: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { number(s.drop_last(), radix) * radix + digit(s.last(), radix)->0 }
}

pub open spec fn signed(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '-' }
pub open spec fn magnitude(s: Seq<char>) -> Seq<char> { if signed(s) { s.skip(1) } else { s } }

pub open spec fn hex(s: Seq<char>) -> bool { magnitude(s).len() >= 2 && magnitude(s)[0] == '0' && magnitude(s)[1] == 'x' }

/// "-"? "0x" hexdigit+
pub open spec fn hex_literal(s: Seq<char>) -> bool { hex(s) && digits(magnitude(s).skip(2), 16) }
/// "-"? digit+
pub open spec fn dec_literal(s: Seq<char>) -> bool { digits(magnitude(s), 10) }
/// "-"? digit+ "." digit+
pub open spec fn frac_literal(s: Seq<char>) -> bool {
    exists|k: int| 0 <= k < magnitude(s).len() && #[trigger] magnitude(s)[k] == '.' && digits(magnitude(s).take(k), 10) && digits(magnitude(s).skip(k + 1), 10)
}
/// `value` of the grammar
pub open spec fn literal(s: Seq<char>) -> bool { hex_literal(s) || dec_literal(s) || frac_literal(s) }

/// what a literal without a fraction denotes
pub open spec fn denotes(s: Seq<char>) -> int {
    let m = if hex(s) { number(magnitude(s).skip(2), 16) } else { number(magnitude(s), 10) };
    if signed(s) { -m } else { m }
}

// ---------------------------------------------------------------- types

pub open spec fn type_named(s: Seq<char>) -> Option<Primitive> {
    if s == "uint8"@ { Some(Primitive::Uint8) } else if s == "uint16"@ { Some(Primitive::Uint16) }
    else if s == "uint32"@ { Some(Primitive::Uint32) } else if s == "uint64"@ { Some(Primitive::Uint64) }
    else if s == "int8"@ { Some(Primitive::Int8) } else if s == "int16"@ { Some(Primitive::Int16) }
    else if s == "int32"@ { Some(Primitive::Int32) } else if s == "int64"@ { Some(Primitive::Int64) }
    else if s == "float32"@ { Some(Primitive::Float32) } else if s == "float64"@ { Some(Primitive::Float64) }
    else { None }
}

pub open spec fn is_float(p: Primitive) -> bool { p is Float32 || p is Float64 }
pub open spec fn is_unsigned(p: Primitive) -> bool { p is Uint8 || p is Uint16 || p is Uint32 || p is Uint64 }

pub open spec fn lowest(p: Primitive) -> int {
    match p { Primitive::Int8 => -0x80, Primitive::Int16 => -0x8000, Primitive::Int32 => -0x8000_0000, Primitive::Int64 => -0x8000_0000_0000_0000, _ => 0 }
}
pub open spec fn highest(p: Primitive) -> int {
    match p {
        Primitive::Int8 => 0x7f, Primitive::Int16 => 0x7fff, Primitive::Int32 => 0x7fff_ffff, Primitive::Int64 => 0x7fff_ffff_ffff_ffff,
        Primitive::Uint8 => 0xff, Primitive::Uint16 => 0xffff, Primitive::Uint32 => 0xffff_ffff, Primitive::Uint64 => 0xffff_ffff_ffff_ffff, _ => 0,
    }
}

/// std's reading of a decimal as a floating-point number, and whether that is an infinity: not interpreted
pub uninterp spec fn reads_as<F>(s: Seq<char>) -> Option<F>;
pub uninterp spec fn infinite32(f: f32) -> bool;
pub uninterp spec fn infinite64(f: f64) -> bool;
/// the decimal numeral of a number
pub uninterp spec fn numeral(n: int) -> Seq<char>;

/// the decimal form a floating-point literal is checked in
pub open spec fn decimal_form(s: Seq<char>) -> Seq<char> { if hex(s) { numeral(number(magnitude(s).skip(2), 16)) } else { s } }

/// C17: which literal is in the range of the type
pub open spec fn in_range(p: Primitive, s: Seq<char>) -> bool {
    if is_float(p) {
        &&& hex(s) ==> number(magnitude(s).skip(2), 16) <= u128::MAX
        &&& p is Float32 ==> !infinite32(reads_as::<f32>(decimal_form(s))->0)
        &&& p is Float64 ==> !infinite64(reads_as::<f64>(decimal_form(s))->0)
    } else {
        &&& !frac_literal(s)
        &&& is_unsigned(p) ==> !signed(s)
        &&& lowest(p) <= denotes(s) <= highest(p)
    }
}

/// a decimal no language reads as an octal number
pub open spec fn no_octal(s: Seq<char>) -> bool { hex(s) || magnitude(s).len() == 1 || magnitude(s)[0] != '0' || magnitude(s)[1] == '.' }

/// what the MIR holds of a literal in the range of its type
pub open spec fn emitted(p: Primitive, r: Seq<char>) -> bool {
    &&& no_octal(r)
    &&& if is_float(p) { frac_literal(r) } else {
        (hex_literal(r) || dec_literal(r)) && (is_unsigned(p) ==> !signed(r)) && lowest(p) <= denotes(r) <= highest(p)
    }
}

}
