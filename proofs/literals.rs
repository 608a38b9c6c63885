//@include common
//@include ident
verus! {
/*@ idlc_ast/src/ast.rs | enum Primitive | @*/
/*@ idlc_ast/src/ast.rs | struct Const | @*/
/*@ idlc_mir/src/mir.rs | enum Primitive | ren_Primitive_MirPrimitive,derive_Clone,derive_Copy @*/
/*@ idlc_mir/src/mir.rs | struct Const | ren_Primitive_MirPrimitive,ren_Const_MirConst @*/

/// the MIR's type of one name
pub open spec fn ast_type(p: MirPrimitive) -> Primitive {
    match p {
        MirPrimitive::Uint8 => Primitive::Uint8, MirPrimitive::Uint16 => Primitive::Uint16, MirPrimitive::Uint32 => Primitive::Uint32, MirPrimitive::Uint64 => Primitive::Uint64,
        MirPrimitive::Int8 => Primitive::Int8, MirPrimitive::Int16 => Primitive::Int16, MirPrimitive::Int32 => Primitive::Int32, MirPrimitive::Int64 => Primitive::Int64,
        MirPrimitive::Float32 => Primitive::Float32, MirPrimitive::Float64 => Primitive::Float64,
    }
}
}
//@include literal_spec
verus! {

}
//@include strs
//@include ast_error
verus! {

// ---------------------------------------------------------------- lemmas

pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 'x' }

pub proof fn plain_unchanged(s: Seq<char>)
    requires plain(s),
    ensures replaced(s, "0x"@, ""@) == s,
    decreases s.len()
{
    reveal_strlit("0x"); reveal_strlit("");
    if s.len() > 0 {
        if has_prefix(s, "0x"@) { assert("0x"@[1] == 'x'); assert(s.take(2)[1] == s[1]); assert(false); }
        assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] s.skip(1)[i] != 'x' by { assert(s.skip(1)[i] == s[i + 1]); }
        plain_unchanged(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}

pub proof fn digits_plain(s: Seq<char>, radix: int)
    requires digits(s, radix), radix <= 16,
    ensures plain(s), forall|i: int| 0 <= i < s.len() ==> visible(#[trigger] s[i]) && s[i] != '-' && s[i] != '+' && s[i] != '.',
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 'x' && visible(s[i]) && s[i] != '-' && s[i] != '+' && s[i] != '.' by { assert(digit(s[i], radix) is Some); }
}

/// the text after `0x` is taken out
pub open spec fn stripped(s: Seq<char>) -> Seq<char> {
    if hex(s) { if signed(s) { seq!['-'] + magnitude(s).skip(2) } else { magnitude(s).skip(2) } } else { s }
}

pub proof fn literal_facts(s: Seq<char>)
    requires literal(s),
    ensures
        s.len() > 0, visible(s[0]), visible(s.last()),
        hex(s) ==> hex_literal(s) && !dec_literal(s) && !frac_literal(s),
        !hex(s) ==> dec_literal(s) || frac_literal(s),
        dec_literal(s) ==> !frac_literal(s),
        replaced(s, "0x"@, ""@) == stripped(s),
        hex(s) <==> has_prefix(s, "0x"@) || has_prefix(s, "-0x"@),
{
    reveal_strlit("0x"); reveal_strlit("-0x"); reveal_strlit("");
    let m = magnitude(s);
    assert(signed(s) ==> s =~= seq!['-'] + m);
    if has_prefix(s, "0x"@) { assert(s.take(2)[0] == s[0]); assert(s.take(2)[1] == s[1]); assert("0x"@[0] == '0' && "0x"@[1] == 'x'); assert(hex(s)); }
    if has_prefix(s, "-0x"@) { assert(s.take(3)[0] == s[0]); assert(s.take(3)[1] == s[1]); assert(s.take(3)[2] == s[2]); assert("-0x"@[0] == '-' && "-0x"@[1] == '0' && "-0x"@[2] == 'x'); assert(m[0] == s[1] && m[1] == s[2]); assert(hex(s)); }
    if hex(s) {
        if signed(s) { assert(s[1] == m[0] && s[2] == m[1]); assert(s.take(3) =~= "-0x"@); } else { assert(s.take(2) =~= "0x"@); }
        if dec_literal(s) { digits_plain(m, 10); assert(m[1] != 'x'); assert(false); }
        if frac_literal(s) {
            let k = choose|k: int| 0 <= k < m.len() && #[trigger] m[k] == '.' && digits(m.take(k), 10) && digits(m.skip(k + 1), 10);
            if 1 < k { digits_plain(m.take(k), 10); assert(m.take(k)[1] == m[1]); assert(false); }
            if k < 1 { assert(m.take(0).len() == 0); assert(false); }
            assert(false);
        }
        assert(hex_literal(s));
        let h = m.skip(2);
        digits_plain(h, 16);
        assert(h.last() == s.last());
        plain_unchanged(h);
        assert(has_prefix(m, "0x"@)) by { assert(m.take(2) =~= "0x"@); }
        assert(m.skip("0x"@.len() as int) =~= h);
        assert(replaced(m, "0x"@, ""@) == ""@ + h);
        assert(""@ + h =~= h);
        if signed(s) {
            assert(!has_prefix(s, "0x"@)) by { if has_prefix(s, "0x"@) { assert(s.take(2)[0] == s[0]); assert("0x"@[0] == '0'); } }
            assert(s.skip(1) =~= m);
            assert(replaced(s, "0x"@, ""@) == seq![s[0]] + replaced(m, "0x"@, ""@));
        } else { assert(m =~= s); }
    } else {
        if dec_literal(s) {
            digits_plain(m, 10);
            assert(visible(m[0]) && visible(m.last()) && m.last() == s.last());
            assert(!frac_literal(s));
        } else {
            assert(frac_literal(s));
            let k = choose|k: int| 0 <= k < m.len() && #[trigger] m[k] == '.' && digits(m.take(k), 10) && digits(m.skip(k + 1), 10);
            digits_plain(m.take(k), 10);
            digits_plain(m.skip(k + 1), 10);
            assert(visible(m.take(k)[0]) && m.take(k)[0] == m[0]);
            assert(visible(m.skip(k + 1).last()) && m.skip(k + 1).last() == m.last() && m.last() == s.last());
            assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] != 'x' by {
                if i < k { assert(m.take(k)[i] == m[i]); } else if i > k { assert(m.skip(k + 1)[i - k - 1] == m[i]); }
            }
        }
        assert(plain(m));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 'x' by { if signed(s) { if i > 0 { assert(m[i - 1] == s[i]); } } }
        plain_unchanged(s);
    }
}

/// what the parsers read is the stripped text
pub proof fn parses_in_range(p: Primitive, s: Seq<char>)
    requires literal(s), !is_float(p),
    ensures parses(stripped(s), if hex(s) { 16 } else { 10 }, lowest(p), highest(p)) == in_range(p, s),
{
    literal_facts(s);
    let t = stripped(s);
    let radix: int = if hex(s) { 16 } else { 10 };
    let m = if hex(s) { magnitude(s).skip(2) } else { magnitude(s) };
    assert(signed(s) ==> t =~= seq!['-'] + m && t.skip(1) =~= m);
    assert(!signed(s) ==> t =~= m);
    if hex(s) || dec_literal(s) {
        digits_plain(m, radix);
        assert(m[0] != '+' && m[0] != '-');
        number_nonneg(m, radix);
        if signed(s) { assert(digit(t[0], radix) is None); assert(!digits(t, radix)); }
    } else {
        let k = choose|k: int| 0 <= k < m.len() && #[trigger] m[k] == '.' && digits(m.take(k), 10) && digits(m.skip(k + 1), 10);
        digits_plain(m.take(k), 10);
        assert(m.take(k)[0] == m[0]);
        assert(digit(m[k], 10) is None);
        assert(!digits(m, 10));
        if signed(s) { assert(t[k + 1] == m[k]); assert(digit(t[k + 1], 10) is None); } else { assert(t[k] == m[k]); }
        assert(!digits(t, 10));
        assert(t[0] != '+');
    }
}

pub proof fn number_nonneg(s: Seq<char>, radix: int)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] digit(s[i], radix)) is Some, radix > 0,
    ensures number(s, radix) >= 0,
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] digit(s.drop_last()[i], radix)) is Some by { assert(s.drop_last()[i] == s[i]); }
        number_nonneg(s.drop_last(), radix);
        assert(digit(s[s.len() - 1], radix) is Some);
        assert(number(s.drop_last(), radix) * radix >= 0) by (nonlinear_arith) requires number(s.drop_last(), radix) >= 0, radix > 0;
    }
}

pub proof fn float_form(s: Seq<char>)
    requires hex_literal(s), literal(s),
    ensures ({
        let h = magnitude(s).skip(2);
        &&& without_leading(stripped(s), '-') == h
        &&& digits(h, 16)
        &&& number(h, 16) >= 0
        &&& parses(h, 16, 0, u128::MAX as int) == (number(h, 16) <= u128::MAX)
    }),
{
    let h = magnitude(s).skip(2);
    digits_plain(h, 16);
    number_nonneg(h, 16);
    assert(h[0] != '-' && h[0] != '+');
    reveal_with_fuel(without_leading, 2);
    if signed(s) { assert(stripped(s).skip(1) =~= h); }
}

pub proof fn type_texts()
    ensures forall|s: Seq<char>| #![trigger type_named(s)] type_named(s) is Some ==> (has_prefix(s, "float"@) <==> is_float(type_named(s)->0)),
        "uint8"@ != "uint16"@,
{
    reveal_strlit("uint8"); reveal_strlit("uint16"); reveal_strlit("uint32"); reveal_strlit("uint64");
    reveal_strlit("int8"); reveal_strlit("int16"); reveal_strlit("int32"); reveal_strlit("int64");
    reveal_strlit("float32"); reveal_strlit("float64"); reveal_strlit("float");
    assert("float32"@.take(5) =~= "float"@);
    assert("float64"@.take(5) =~= "float"@);
    assert("float"@[0] == 'f');
    assert("uint8"@.take(5)[0] == 'u'); assert("uint16"@.take(5)[0] == 'u'); assert("uint32"@.take(5)[0] == 'u'); assert("uint64"@.take(5)[0] == 'u');
    assert("int16"@.take(5)[0] == 'i'); assert("int32"@.take(5)[0] == 'i'); assert("int64"@.take(5)[0] == 'i');
}

}
//@include prim_new
verus! {

// ---------------------------------------------------------------- the spelling that every target language reads alike

/// what Rust reads of a literal is zero: not interpreted
pub uninterp spec fn rounds_to_zero32(s: Seq<char>) -> bool;
pub uninterp spec fn rounds_to_zero64(s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn zero32(s: &str) -> (r: bool) ensures r == rounds_to_zero32(s@) { s.parse() == Ok(0f32) }
#[verifier::external_body]
pub fn zero64(s: &str) -> (r: bool) ensures r == rounds_to_zero64(s@) { s.parse() == Ok(0f64) }

pub open spec fn whole(s: Seq<char>) -> Seq<char> { match position(magnitude(s), '.') { Some(k) => magnitude(s).take(k), None => magnitude(s) } }
pub open spec fn fraction(s: Seq<char>) -> Seq<char> { match position(magnitude(s), '.') { Some(k) => magnitude(s).skip(k + 1), None => seq![] } }

/// C17: the emitted text `r` denotes what the literal `s` denotes
pub open spec fn same_value(p: Primitive, s: Seq<char>, r: Seq<char>) -> bool {
    if is_float(p) {
        if (p is Float32 && rounds_to_zero32(s) || p is Float64 && rounds_to_zero64(s)) && !hex(s) { r == "0.0"@ }
        else {
            &&& frac_literal(r)
            &&& signed(r) == signed(s)
            &&& hex(s) ==> whole(r) == numeral(number(magnitude(s).skip(2), 16)) && fraction(r) == "0"@
            &&& !hex(s) ==> number(whole(r), 10) == number(whole(s), 10) && fraction(r) == (if fraction(s).len() == 0 { "0"@ } else { fraction(s) })
        }
    } else {
        (hex_literal(r) || dec_literal(r)) && denotes(r) == denotes(s) && signed(r) == signed(s)
    }
}

/// the emitted hexadecimal is read without a failure
pub proof fn parses_hex(p: Primitive, s: Seq<char>)
    requires hex_literal(s), literal(s), in_range(p, s),
    ensures is_float(p) ==> parses(magnitude(s).skip(2), 16, 0, u128::MAX as int),
{
    float_form(s);
}

pub proof fn same_text_empty()
    ensures forall|t: &str| #![trigger t@] t@ == ""@ ==> t == "", forall|t: &str| #![trigger t@] t@.len() == 0 ==> t@ == ""@,
{
    reveal_strlit("");
    assert forall|t: &str| #![trigger t@] t@ == ""@ implies t == "" by { same_text(t, ""); }
    assert forall|t: &str| #![trigger t@] t@.len() == 0 implies t@ == ""@ by { assert(t@ =~= ""@); }
}

pub open spec fn sign_of(neg: bool) -> Seq<char> { if neg { "-"@ } else { ""@ } }

pub proof fn position_is(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] != '.', k < s.len() ==> s[k] == '.',
    ensures position(s, '.') == (if k < s.len() { Some(k) } else { None }),
    decreases s.len()
{
    if s.len() > 0 && k > 0 {
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] s.skip(1)[i] != '.' by { assert(s.skip(1)[i] == s[i + 1]); }
        if k < s.len() { assert(s.skip(1)[k - 1] == s[k]); }
        position_is(s.skip(1), k - 1);
    }
}

pub proof fn parts(s: Seq<char>)
    requires literal(s), !hex(s),
    ensures digits(whole(s), 10), fraction(s).len() == 0 || digits(fraction(s), 10), frac_literal(s) <==> fraction(s).len() > 0,
        frac_literal(s) <==> position(magnitude(s), '.') is Some,
        !frac_literal(s) ==> whole(s) == magnitude(s),
{
    literal_facts(s);
    let m = magnitude(s);
    if dec_literal(s) {
        digits_plain(m, 10);
        position_is(m, m.len() as int);
    } else {
        let k = choose|k: int| 0 <= k < m.len() && #[trigger] m[k] == '.' && digits(m.take(k), 10) && digits(m.skip(k + 1), 10);
        digits_plain(m.take(k), 10);
        assert forall|i: int| 0 <= i < k implies #[trigger] m[i] != '.' by { assert(m.take(k)[i] == m[i]); }
        position_is(m, k);
    }
}

pub proof fn dotted(neg: bool, w: Seq<char>, f: Seq<char>, r: Seq<char>)
    requires digits(w, 10), digits(f, 10), r =~= sign_of(neg) + w + "."@ + f,
    ensures frac_literal(r), signed(r) == neg, whole(r) == w, fraction(r) == f, !hex(r), w.len() == 1 || w[0] != '0' ==> no_octal(r),
{
    reveal_strlit("-"); reveal_strlit(""); reveal_strlit(".");
    digits_plain(w, 10);
    if !neg { assert(r[0] == w[0]); }
    let m = magnitude(r);
    assert(m =~= w + "."@ + f);
    let k = w.len() as int;
    assert(m[k] == '.');
    assert(m.take(k) =~= w);
    assert(m.skip(k + 1) =~= f);
    assert forall|i: int| 0 <= i < k implies #[trigger] m[i] != '.' by { assert(m[i] == w[i]); }
    position_is(m, k);
    assert(m[0] == w[0]);
    if k > 1 { assert(m[1] == w[1]); }
}

pub proof fn bare(neg: bool, w: Seq<char>, r: Seq<char>)
    requires digits(w, 10), r =~= sign_of(neg) + w,
    ensures dec_literal(r), signed(r) == neg, magnitude(r) == w, !hex(r), w.len() == 1 || w[0] != '0' ==> no_octal(r),
{
    reveal_strlit("-"); reveal_strlit("");
    digits_plain(w, 10);
    if !neg { assert(r[0] == w[0]); }
    assert(magnitude(r) =~= w);
    if w.len() > 1 { assert(w[1] != 'x'); }
}

pub proof fn zero_in_front(s: Seq<char>)
    requires s.len() > 0, s[0] == '0',
    ensures number(s.skip(1), 10) == number(s, 10),
    decreases s.len()
{
    if s.len() == 1 {
        reveal_with_fuel(number, 2);
        assert(s.skip(1).len() == 0);
        assert(s.drop_last().len() == 0);
    } else {
        zero_in_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
    }
}

/// leading zeros do not matter
pub proof fn trimmed(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] digit(s[i], 10)) is Some,
    ensures
        without_leading(s, '0').len() > 0 ==> digits(without_leading(s, '0'), 10) && without_leading(s, '0')[0] != '0',
        number(without_leading(s, '0'), 10) == number(s, 10),
    decreases s.len()
{
    if s.len() > 0 && s[0] == '0' {
        zero_in_front(s);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] digit(s.skip(1)[i], 10)) is Some by { assert(s.skip(1)[i] == s[i + 1]); }
        trimmed(s.skip(1));
    }
}

/// the integral part as it is emitted
pub open spec fn canonical(s: Seq<char>) -> Seq<char> { if without_leading(s, '0').len() == 0 { "0"@ } else { without_leading(s, '0') } }

pub proof fn spelled(p: Primitive, s: Seq<char>)
    requires literal(s), in_range(p, s),
    ensures ({
        let sg = sign_of(signed(s));
        let w = canonical(whole(s));
        let f = fraction(s);
        let n = sg + numeral(number(magnitude(s).skip(2), 16)) + ".0"@;
        &&& hex(s) && is_float(p) ==> same_value(p, s, n) && no_octal(n)
        &&& hex(s) && !is_float(p) ==> same_value(p, s, s) && no_octal(s)
        &&& no_octal("0.0"@) && frac_literal("0.0"@)
        &&& !hex(s) ==> frac_literal(sg + w + ".0"@) && no_octal(sg + w + ".0"@) && no_octal(sg + w) && no_octal(sg + w + "."@ + f)
        &&& !hex(s) && is_float(p) && !(p is Float32 && rounds_to_zero32(s) || p is Float64 && rounds_to_zero64(s)) ==> {
            &&& f.len() == 0 ==> same_value(p, s, sg + w + ".0"@)
            &&& f.len() > 0 ==> same_value(p, s, sg + w + "."@ + f)
        }
        &&& !hex(s) && !is_float(p) ==> f.len() == 0 && same_value(p, s, sg + w)
    }),
{
    reveal_strlit("0.0"); reveal_strlit(".0"); reveal_strlit("."); reveal_strlit("0");
    literal_facts(s);
    assert(digits("0"@, 10)) by { assert(digit("0"@[0], 10) is Some); }
    assert(".0"@ =~= "."@ + "0"@);
    reveal_strlit(""); assert("0.0"@ =~= ""@ + "0"@ + "."@ + "0"@);
    dotted(false, "0"@, "0"@, "0.0"@);
    let sg = sign_of(signed(s));
    if hex(s) {
        float_form(s);
        numerals(number(magnitude(s).skip(2), 16));
        dotted(signed(s), numeral(number(magnitude(s).skip(2), 16)), "0"@, sg + numeral(number(magnitude(s).skip(2), 16)) + ".0"@);
    } else {
        parts(s);
        trimmed(whole(s));
        let w = canonical(whole(s));
        let f = fraction(s);
        reveal_with_fuel(number, 2);
        assert(number("0"@, 10) == 0) by { assert("0"@.drop_last().len() == 0); assert("0"@.last() == '0'); }
        assert(number(w, 10) == number(whole(s), 10));
        assert(digits(w, 10));
        dotted(signed(s), w, "0"@, sg + w + ".0"@);
        bare(signed(s), w, sg + w);
        if f.len() > 0 { dotted(signed(s), w, f, sg + w + "."@ + f); } else { assert(no_octal(sg + w + "."@ + f)) by { no_fraction(signed(s), w, sg + w + "."@ + f, f); } }
    }
}

pub proof fn no_fraction(neg: bool, w: Seq<char>, r: Seq<char>, f: Seq<char>)
    requires digits(w, 10), r =~= sign_of(neg) + w + "."@ + f, f.len() == 0, w.len() == 1 || w[0] != '0',
    ensures no_octal(r),
{
    reveal_strlit("-"); reveal_strlit(""); reveal_strlit(".");
    digits_plain(w, 10);
    if !neg { assert(r[0] == w[0]); }
    let m = magnitude(r);
    assert(m =~= w + "."@ + f);
    assert(m[0] == w[0]);
    if w.len() == 1 { assert(m[1] == '.'); }
}

/*@ idlc_mir/src/mir.rs | fn normalize_literal | ren_Primitive_MirPrimitive,ren_Const_MirConst,fmt,opt_map_or,meth_strip_prefix,meth_split_once,meth_trim_start_matches,meth_to_string
ret r
sub value.parse() == Ok(0f32) => zero32(value)
sub value.parse() == Ok(0f64) => zero64(value)
spec {
    requires literal(value@), in_range(ast_type(raw_type), value@),
    ensures same_value(ast_type(raw_type), value@, r@), emitted(ast_type(raw_type), r@),
}
start {
    broadcast use numerals;
    proof {
        reveal_strlit("-"); reveal_strlit(""); reveal_strlit("0x");
        same_text_empty();
        literal_facts(value@);
        if hex(value@) { float_form(value@); parses_hex(ast_type(raw_type), value@); } else { parts(value@); }
        spelled(ast_type(raw_type), value@);
        assert(hex(value@) ==> magnitude(value@).take(2) =~= "0x"@);
        assert(has_prefix(magnitude(value@), "0x"@) ==> magnitude(value@).take(2)[0] == '0' && magnitude(value@).take(2)[1] == 'x');
        assert(has_prefix(magnitude(value@), "0x"@) <==> hex(value@));
        assert(signed(value@) ==> value@.take(1) =~= seq!['-']);
        assert(has_prefix(value@, seq!['-']) ==> value@.take(1)[0] == value@[0]);
        assert(signed(value@) <==> has_prefix(value@, seq!['-']));
    }
}
@*/


/*@ idlc_mir/src/mir.rs | fn From/Primitive::from | ren_Primitive_MirPrimitive,ren_Const_MirConst
ret r
spec { ensures ast_type(r) == *prim }
@*/

/*@ idlc_mir/src/mir.rs | fn From/Const::from | ren_Primitive_MirPrimitive,ren_Const_MirConst
ret r
spec {
    requires literal(const_.value@), in_range(const_.raw_type, const_.value@),
    ensures r.ident.ident@ == const_.ident.ident@, ast_type(r.raw_type) == const_.raw_type, same_value(const_.raw_type, const_.value@, r.value@), emitted(const_.raw_type, r.value@),
}
@*/

}
fn main() {}
