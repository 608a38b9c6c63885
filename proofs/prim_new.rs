// Primitive::new, Primitive::try_from
verus! {

/*@ idlc_ast/src/ast.rs | fn Primitive::new | meth_to_string,meth_starts_with,meth_replace,meth_trim_start_matches
ret r
spec {
    requires literal(value@), type_named(raw_type@) is Some,
    ensures
        r is Ok <==> in_range(type_named(raw_type@)->0, value@),
        r is Ok ==> r->Ok_0 == type_named(raw_type@)->0,
}
start {
    broadcast use floats_read, numerals;
    let ghost text = value@;
    proof {
        literal_facts(value@);
        type_texts();
        if !is_float(type_named(raw_type@)->0) { parses_in_range(type_named(raw_type@)->0, value@); }
        match_types(raw_type);
        reveal_strlit("0x");
        if hex(value@) { float_form(value@); }
    }
}
@*/

/*@ idlc_ast/src/ast.rs | fn TryFrom/Primitive::try_from | meth_to_string
ret r
sub Self::Error => Error
spec {
    ensures r is Ok <==> type_named(value@) is Some, r is Ok ==> Some(r->Ok_0) == type_named(value@),
}
start {
    proof { match_types(value); }
}
@*/

}
