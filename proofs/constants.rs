//@include common
//@include ident
verus! {
/*@ idlc_mir/src/mir.rs | enum Primitive | derive_Clone,derive_Copy @*/
/*@ idlc_mir/src/mir.rs | struct Const | @*/
}
//@include literal_spec
//@include strs
//@include const_spec

// ---------------------------------------------------------------- C and C++
pub mod c {
use super::*;
use vstd::prelude::*;
verus! {

/*@ idlc_codegen_c/src/types.rs | fn change_const_primitive |
ret r
spec { ensures !is_float(primitive) ==> r@ == c_macro(primitive) }
@*/

/*@ idlc_codegen_c/src/types.rs | fn is_minimum | meth_strip_prefix,fmt
ret r
sub parsed == Ok(minimum) => is_value(&parsed, minimum)
spec {
    requires hex_literal(value@) || dec_literal(value@), minimum < 0,
    ensures r == (denotes(value@) == minimum),
}
start {
    broadcast use integers_read;
    proof {
        minimum_texts(value@);
        let v = value@;
        assert(hex(v) && signed(v) ==> "-"@ + v.skip(3) == seq!['-'] + v.skip(3)) by { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
        assert(hex(v) && signed(v) ==> read_as_int("-"@ + v.skip(3), 16) == denotes(v));
        assert(hex(v) && signed(v) ==> (parses("-"@ + v.skip(3), 16, i64::MIN as int, i64::MAX as int) <==> i64::MIN <= denotes(v)));
        assert(hex(v) && !signed(v) ==> !parses(v, 10, i64::MIN as int, i64::MAX as int));
        assert(!hex(v) ==> (parses(v, 10, i64::MIN as int, i64::MAX as int) <==> i64::MIN <= denotes(v) <= i64::MAX));
    }
}
@*/

pub proof fn minimum_texts(s: Seq<char>)
    requires hex_literal(s) || dec_literal(s),
    ensures
        has_prefix(s, "-0x"@) <==> hex(s) && signed(s),
        has_prefix(s, "-0x"@) ==> signed("-"@ + s.skip(3)) && ("-"@ + s.skip(3)).skip(1) == s.skip(3) && s.skip(3) == magnitude(s).skip(2) && digits(s.skip(3), 16),
        "-0x"@.len() == 3,
        s.len() > 0 && s[0] != '+',
        hex(s) && !signed(s) ==> !digits(s, 10) && denotes(s) >= 0,
        !hex(s) ==> digits(magnitude(s), 10) && read_as_int(s, 10) == denotes(s),
        !hex(s) && !signed(s) ==> denotes(s) >= 0,
        signed(s) ==> denotes(s) <= 0,
{
    reveal_strlit("-0x"); reveal_strlit("-");
    let m = magnitude(s);
    if has_prefix(s, "-0x"@) {
        assert(s.take(3)[0] == s[0] && s.take(3)[1] == s[1] && s.take(3)[2] == s[2]);
        assert(s.skip(3) =~= m.skip(2));
        assert(("-"@ + s.skip(3)).skip(1) =~= s.skip(3));
    }
    if hex(s) {
        if !hex_literal(s) { digits_visible(m); assert(m[1] != 'x'); }
        if signed(s) { assert(s.take(3) =~= "-0x"@); }
        else if digits(s, 10) { digits_visible(s); assert(s[1] != 'x'); }
    } else { digits_visible(m); }
    sign_decides(s);
    if !signed(s) { assert(s[0] == m[0]); if hex(s) { } }
}

pub proof fn spelled_minimum(p: Primitive, n: int)
    requires p is Int32 || p is Int64, n == lowest(p) + 1,
    ensures c_literal(p, displayed(n)), denotes(displayed(n)) == n,
{
    displayed_value(n);
}

/*@ idlc_codegen_c/src/types.rs | fn const_value | fmt
ret r
spec {
    requires emitted(raw_const.raw_type, raw_const.value@),
    ensures c_constant(raw_const.raw_type, r@, raw_const.value@),
}
start {
    proof {
        let p = raw_const.raw_type;
        let v = raw_const.value@;
        if !is_float(p) {
            sign_decides(v);
            if p is Int32 || p is Int64 { spelled_minimum(p, lowest(p) + 1); }
            if !((p is Int32 || p is Int64) && denotes(v) == lowest(p)) { assert(c_literal(p, v)); }
        }
    }
}
@*/

/*@ idlc_codegen_c/src/globals.rs | fn emit_const | fmt
ret r
spec {
    requires emitted(raw_const.raw_type, raw_const.value@),
    ensures exists|t: Seq<char>| #[trigger] c_constant(raw_const.raw_type, t, raw_const.value@) && r@ == "#define "@ + raw_const.ident.ident@ + " "@ + t + "\n\n"@,
}
@*/

} }

// ---------------------------------------------------------------- Rust
pub mod rust {
use super::*;
use vstd::prelude::*;
verus! {

pub open spec fn rust_type(p: Primitive) -> Seq<char> {
    match p {
        Primitive::Uint8 => "u8"@, Primitive::Uint16 => "u16"@, Primitive::Uint32 => "u32"@, Primitive::Uint64 => "u64"@,
        Primitive::Int8 => "i8"@, Primitive::Int16 => "i16"@, Primitive::Int32 => "i32"@, Primitive::Int64 => "i64"@,
        Primitive::Float32 => "f32"@, Primitive::Float64 => "f64"@,
    }
}

/*@ idlc_codegen_rust/src/types.rs | fn change_primitive |
ret r
spec { ensures r@ == rust_type(primitive) }
@*/

/// Rust reads the literals of the MIR as they are: a sign in front is part of a literal which has to be in range, integers may be
/// decimal or hexadecimal, floating-point literals need a fraction
pub open spec fn rust_constant(p: Primitive, s: Seq<char>) -> bool { emitted(p, s) }

/*@ idlc_codegen_rust/src/globals.rs | fn emit_const | fmt,meth_to_uppercase
ret r
spec {
    requires emitted(raw_const.raw_type, raw_const.value@),
    ensures
        rust_constant(raw_const.raw_type, raw_const.value@),
        r@ == "pub const "@ + uppercase(raw_const.ident.ident@) + ": "@ + rust_type(raw_const.raw_type) + " = "@ + raw_const.value@ + ";\n"@,
}
@*/

} }

// ---------------------------------------------------------------- Java
pub mod java {
use super::*;
use vstd::prelude::*;
verus! {

/// every type has a Java type of its width
pub open spec fn java_type(p: Primitive) -> Seq<char> {
    match p {
        Primitive::Uint8 | Primitive::Int8 => "byte"@, Primitive::Uint16 => "char"@, Primitive::Int16 => "short"@,
        Primitive::Uint32 | Primitive::Int32 => "int"@, Primitive::Uint64 | Primitive::Int64 => "long"@,
        Primitive::Float32 => "float"@, Primitive::Float64 => "double"@,
    }
}

/// literals of Java's long: decimals have to fit by themselves (the minimum only behind a sign), hexadecimals denote 64 bits
pub open spec fn java_long(s: Seq<char>) -> bool {
    &&& no_octal(s)
    &&& hex_literal(s) && number(magnitude(s).skip(2), 16) <= u64::MAX || dec_literal(s) && i64::MIN <= denotes(s) <= i64::MAX
}

/// an expression of Java whose bits are those of the integer `n` of type `p`
pub open spec fn java_integer(p: Primitive, t: Seq<char>, n: int) -> bool {
    exists|s: Seq<char>| #[trigger] java_long(s) && denotes(s) == n && t == (if p is Uint64 || p is Int64 { s + "L"@ } else { "("@ + java_type(p) + ") "@ + s + "L"@ })
        || (p is Int16 && #[trigger] java_long(s) && denotes(s) == n && -0x8000_0000 <= n <= 0x7fff_ffff && t == "(short) "@ + s)
}

pub open spec fn java_constant(p: Primitive, t: Seq<char>, s: Seq<char>) -> bool {
    match p {
        Primitive::Float32 => t == s + "f"@,
        Primitive::Float64 => t == s,
        _ => java_integer(p, t, denotes(s)),
    }
}

/*@ idlc_codegen_java/src/types.rs | fn change_primitive |
ret r
spec { ensures !(primitive is Int16) ==> r@ == java_type(primitive) }
@*/

/*@ idlc_codegen_java/src/types.rs | fn change_const | fmt,opt_filter,opt_map_or_else,meth_to_string
ret r
sub i64::try_from(* value).is_err() => beyond_long(*value)
spec {
    requires emitted(raw_const.raw_type, raw_const.value@),
    ensures r.0@ == java_type(raw_const.raw_type), java_constant(raw_const.raw_type, r.1@, raw_const.value@),
}
start {
    broadcast use naturals_read;
    broadcast use hexadecimal_value;
    proof { java_literals(raw_const.raw_type, raw_const.value@); }
}
@*/

#[verifier::external_body]
pub fn beyond_long(v: u64) -> (r: bool) ensures r == (v > i64::MAX) { i64::try_from(v).is_err() }

pub proof fn java_literals(p: Primitive, s: Seq<char>)
    requires emitted(p, s),
    ensures
        !is_float(p) && !(p is Uint64) ==> java_long(s),
        !is_float(p) && !signed(s) ==> denotes(s) >= 0,
        p is Uint64 && denotes(s) <= i64::MAX ==> java_long(s),
        p is Uint64 && hex(s) ==> java_long(s),
        !is_float(p) ==> ({
            &&& parses(s, 10, 0, u64::MAX as int) <==> !hex(s) && !signed(s)
            &&& parses(s, 10, 0, u64::MAX as int) ==> read_as_int(s, 10) == denotes(s)
        }),
        forall|n: int| 0 <= n <= u64::MAX ==> java_long(#[trigger] hexadecimal(n)) && denotes(hexadecimal(n)) == n,
{
    broadcast use hexadecimal_value;
    if !is_float(p) {
        sign_decides(s);
        let m = magnitude(s);
        if hex(s) {
            if !hex_literal(s) { digits_visible(m); assert(m[1] != 'x'); }
            number_positive(m.skip(2), 16);
            if digits(s, 10) { digits_visible(s); assert(!signed(s)); assert(s[1] != 'x'); }
        } else {
            digits_visible(m);
            if digits(s, 10) { digits_visible(s); }
        }
        assert(s.len() > 0 && s[0] != '+') by { if !signed(s) { assert(s[0] == m[0]); } }
    }
    assert forall|n: int| 0 <= n <= u64::MAX implies java_long(#[trigger] hexadecimal(n)) && denotes(hexadecimal(n)) == n by {
        let h = hexadecimal(n);
        assert(!signed(h) && magnitude(h) == h && hex(h));
    }
}

/*@ idlc_codegen_java/src/globals.rs | fn emit_const | fmt
ret r
spec {
    requires emitted(raw_const.raw_type, raw_const.value@),
    ensures exists|t: Seq<char>| #[trigger] java_constant(raw_const.raw_type, t, raw_const.value@) && r@ == java_type(raw_const.raw_type) + " "@ + raw_const.ident.ident@ + " = "@ + t + ";\n    "@,
}
@*/

} }
fn main() {}
