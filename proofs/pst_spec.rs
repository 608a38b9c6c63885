// Parse trees as pest builds them from the grammar, and what the AST has to say of them.
//@grammar idlc_ast/src/idl_grammar.pest
//@ COMMENT_VARIANT_DOUBLESLASH = _{ "//" ~ (!NEWLINE ~ ANY)* }
//@ COMMENT_VARIANT_ASTERISK = _{ "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
//@ DOCUMENTATION = @{ "/**" ~ NEWLINE ~ (!"*/" ~ ANY)* ~ "*/" }
//@ WHITESPACE = _{ " " | "\t" | NEWLINE }
//@ COMMENT = ${ DOCUMENTATION | COMMENT_VARIANT_ASTERISK | COMMENT_VARIANT_DOUBLESLASH }
//@ path = @{ (!".idl" ~ ANY)+ ~ ".idl" }
//@ include = ${ "include" ~ WHITESPACE+ ~ "\"" ~ path ~ "\"" }
//@ ident = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
//@ integer_type = @{ "u"? ~ "int" ~ ("8" | "16" | "32" | "64") }
//@ float_type = @{ "float" ~ ("32" | "64") }
//@ primitive_type = @{ (integer_type | float_type) }
//@ value = @{ ("-"? ~ "0x" ~ ASCII_HEX_DIGIT+ | "-"? ~ ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT+)?) }
//@ array_size = @{ ASCII_DIGIT+ }
//@ bounded_array = { "[" ~ array_size ~ "]" }
//@ unbounded_array = { "[" ~ "]" }
//@ struct_field = { (primitive_type | ident) ~ bounded_array? ~ ident ~ ";" }
//@ struct_keyword = @{ "struct" ~ WHITESPACE }
//@ struct = { struct_keyword ~ (!"interface" ~ ident) ~ "{" ~ (struct_field)+ ~ "};" }
//@ const_keyword = @{ "const" ~ WHITESPACE }
//@ const = { const_keyword ~ primitive_type ~ ident ~ "=" ~ value ~ ";" }
//@ supported_attributes = @{ "optional" }
//@ attribute = ${ "#[" ~ supported_attributes ~ "]" }
//@ param_type = { ((ident | "interface") ~ bounded_array) | ((primitive_type | !"interface" ~ ident) ~ unbounded_array) | primitive_type | ident | "interface" | "buffer" }
//@ mutability = @{ ("in" | "out") }
//@ param = { mutability ~ param_type ~ ident }
//@ function_keyword = @{ (WHITESPACE* ~ attribute ~ WHITESPACE)* ~ WHITESPACE* ~ "method" ~ WHITESPACE }
//@ function = { function_keyword ~ ident ~ "(" ~ param? ~ ("," ~ param)* ~ ");" }
//@ error_keyword = @{ "error" ~ WHITESPACE }
//@ error = { error_keyword ~ ident ~ ";" }
//@ iname = { ident ~ (":" ~ ident)? }
//@ interface_keyword = @{ "interface" ~ WHITESPACE }
//@ interface = { interface_keyword ~ iname ~ "{" ~ (function | const | error)* ~ "};" }
//@ idl = { SOI ~ include* ~ (const | struct | interface)* ~ EOI }
verus! {

/// a node of the parse tree
pub struct PT { pub rule: Rule, pub text: Seq<char>, pub start: usize, pub end: usize, pub kids: Seq<PT> }

/// the node is a part of the tree of the input
pub uninterp spec fn parsed(t: PT) -> bool;

/// the tree of a text, if it is one of the language
pub uninterp spec fn tree_of(s: Seq<char>) -> Option<PT>;

/// --allow-undefined-behavior
pub uninterp spec fn lenient() -> bool;

/// without the comments
pub open spec fn toks(s: Seq<PT>) -> Seq<PT>
    decreases s.len()
{
    if s.len() == 0 { s } else if s.last().rule == Rule::COMMENT { toks(s.drop_last()) } else { toks(s.drop_last()).push(s.last()) }
}

pub open spec fn leaf(t: PT, r: Rule) -> bool { t.rule == r }

/// what the grammar says of a node: the order and the kind of its children, and the texts of the leaves
pub open spec fn shape(t: PT) -> bool {
    let k = toks(t.kids);
    match t.rule {
        Rule::COMMENT => t.kids.len() == 0 || t.kids.len() == 1 && t.kids[0].rule == Rule::DOCUMENTATION,
        Rule::DOCUMENTATION => t.text.len() >= 6 && t.text[0] == '/' && t.text[1] == '*' && t.text[t.text.len() - 1] == '/' && well_doc(t.text.subrange(2, t.text.len() - 1)),
        Rule::include => t.kids.len() == 1 && t.kids[0].rule == Rule::path,
        Rule::primitive_type => type_named(t.text) is Some,
        Rule::value => literal(t.text),
        Rule::array_size => digits(t.text, 10),
        Rule::bounded_array => k.len() == 1 && k[0].rule == Rule::array_size,
        Rule::struct_field => {
            &&& k.len() == 2 || k.len() == 3 && k[1].rule == Rule::bounded_array
            &&& k[0].rule == Rule::primitive_type || k[0].rule == Rule::ident
            &&& k.last().rule == Rule::ident
        }
        Rule::raw_struct => {
            &&& k.len() >= 3 && k[0].rule == Rule::struct_keyword && k[1].rule == Rule::ident
            &&& forall|i: int| 2 <= i < k.len() ==> (#[trigger] k[i]).rule == Rule::struct_field
        }
        Rule::raw_const => k.len() == 4 && k[0].rule == Rule::const_keyword && k[1].rule == Rule::primitive_type && k[2].rule == Rule::ident && k[3].rule == Rule::value,
        Rule::supported_attributes => t.text == "optional"@,
        Rule::attribute => t.kids.len() == 1 && t.kids[0].rule == Rule::supported_attributes,
        Rule::mutability => t.text == "in"@ || t.text == "out"@,
        Rule::param_type => {
            // the words interface and buffer are read as identifiers, by the alternatives that come first
            &&& k.len() == 1 || k.len() == 2 && (k[1].rule == Rule::bounded_array || k[1].rule == Rule::unbounded_array)
            &&& k[0].rule == Rule::primitive_type || k[0].rule == Rule::ident
        }
        Rule::param => k.len() == 3 && k[0].rule == Rule::mutability && k[1].rule == Rule::param_type && k[2].rule == Rule::ident,
        Rule::function_keyword => forall|i: int| 0 <= i < t.kids.len() ==> (#[trigger] t.kids[i]).rule == Rule::attribute,
        Rule::function => {
            &&& k.len() >= 2 && k[0].rule == Rule::function_keyword && k[1].rule == Rule::ident
            &&& forall|i: int| 2 <= i < k.len() ==> (#[trigger] k[i]).rule == Rule::param
        }
        Rule::error => k.len() == 2 && k[0].rule == Rule::error_keyword && k[1].rule == Rule::ident,
        Rule::iname => k.len() == 1 && k[0].rule == Rule::ident || k.len() == 2 && k[0].rule == Rule::ident && k[1].rule == Rule::ident,
        Rule::interface => {
            &&& t.kids.len() > 0 && t.kids[0].rule == Rule::interface_keyword
            &&& exists|m: int| 0 < m < t.kids.len() && name_at(t.kids, m)
        }
        Rule::idl => forall|i: int| 0 <= i < t.kids.len() ==> declares((#[trigger] t.kids[i]).rule) || t.kids[i].rule == Rule::COMMENT || t.kids[i].rule == Rule::EOI,
        _ => true,
    }
}

pub open spec fn declares(r: Rule) -> bool { r == Rule::include || r == Rule::raw_struct || r == Rule::raw_const || r == Rule::interface }

pub open spec fn is_part(r: Rule) -> bool { r == Rule::raw_const || r == Rule::function || r == Rule::error }

/// the name of the interface is the child `m`: comments before it, members and comments behind it
pub open spec fn name_at(k: Seq<PT>, m: int) -> bool {
    &&& k[m].rule == Rule::iname
    &&& forall|i: int| 0 < i < m ==> (#[trigger] k[i]).rule == Rule::COMMENT
    &&& forall|i: int| m < i < k.len() ==> is_part((#[trigger] k[i]).rule) || k[i].rule == Rule::COMMENT
}

/// ASSUMED: pest builds trees of the grammar, read off the rules above
#[verifier::external_body]
pub broadcast proof fn grammar(t: PT)
    requires #[trigger] parsed(t),
    ensures shape(t), forall|i: int| 0 <= i < t.kids.len() ==> parsed(#[trigger] t.kids[i]),
{}

pub proof fn toks_from(s: Seq<PT>)
    ensures
        toks(s).len() <= s.len(),
        forall|i: int| 0 <= i < toks(s).len() ==> (#[trigger] toks(s)[i]).rule != Rule::COMMENT && s.contains(toks(s)[i]),
        (forall|i: int| 0 <= i < s.len() ==> parsed(#[trigger] s[i])) ==> forall|i: int| 0 <= i < toks(s).len() ==> parsed(#[trigger] toks(s)[i]),
    decreases s.len()
{
    if s.len() > 0 {
        toks_from(s.drop_last());
        let p = toks(s.drop_last());
        assert forall|i: int| 0 <= i < toks(s).len() implies (#[trigger] toks(s)[i]).rule != Rule::COMMENT && s.contains(toks(s)[i]) by {
            if i < p.len() {
                assert(toks(s)[i] == p[i]);
                let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == p[i];
                assert(s[j] == p[i]);
            } else { assert(s[s.len() - 1] == toks(s)[i]); }
        }
    }
}

/// every node below and the node itself are as the grammar says
pub proof fn parts_parsed(t: PT)
    requires parsed(t),
    ensures shape(t), forall|i: int| 0 <= i < t.kids.len() ==> parsed(#[trigger] t.kids[i]),
        forall|i: int| 0 <= i < toks(t.kids).len() ==> parsed(#[trigger] toks(t.kids)[i]) && shape(toks(t.kids)[i]),
{
    grammar(t);
    toks_from(t.kids);
    assert forall|i: int| 0 <= i < toks(t.kids).len() implies shape(#[trigger] toks(t.kids)[i]) by { grammar(toks(t.kids)[i]); }
}

// ---------------------------------------------------------------- the AST of a tree

/// the number in brackets
pub open spec fn length_of(t: PT) -> int { number(toks(t.kids)[0].text, 10) }

pub open spec fn type_is(t: Type, s: Seq<char>) -> bool {
    match type_named(s) {
        Some(p) => t == Type::Primitive(p),
        None => if s == "interface"@ { t is Interface } else { t is Custom && t->Custom_0.ident@ == s },
    }
}

pub open spec fn in_is(r: ParamTypeIn, t: PT) -> bool {
    let k = toks(t.kids);
    if k[0].text == "buffer"@ { r == ParamTypeIn::Value(Type::UntypedBuffer) }
    else if k.len() == 1 { r is Value && type_is(r->Value_0, k[0].text) }
    else if k[1].rule == Rule::unbounded_array { r is Array && type_is(r->Array_0, k[0].text) && r->Array_1 is None }
    else { r is Array && type_is(r->Array_0, k[0].text) && r->Array_1 is Some && (r->Array_1->0)@ as int == length_of(k[1]) }
}

pub open spec fn out_is(r: ParamTypeOut, t: PT) -> bool {
    let k = toks(t.kids);
    if k[0].text == "buffer"@ { r == ParamTypeOut::Reference(Type::UntypedBuffer) }
    else if k.len() == 1 { r is Reference && type_is(r->Reference_0, k[0].text) }
    else if k[1].rule == Rule::unbounded_array { r is Array && type_is(r->Array_0, k[0].text) && r->Array_1 is None }
    else { r is Array && type_is(r->Array_0, k[0].text) && r->Array_1 is Some && (r->Array_1->0)@ as int == length_of(k[1]) }
}

pub open spec fn param_is(p: Param, t: PT) -> bool {
    let k = toks(t.kids);
    match p {
        Param::In { raw_type, ident } => k[0].text == "in"@ && in_is(raw_type, k[1]) && ident.ident@ == k[2].text,
        Param::Out { raw_type, ident } => k[0].text == "out"@ && out_is(raw_type, k[1]) && ident.ident@ == k[2].text,
    }
}

/// C17: the text of the literal is kept as it is
pub open spec fn const_is(c: Const, t: PT) -> bool {
    let k = toks(t.kids);
    c.ident.ident@ == k[2].text && type_named(k[1].text) == Some(c.raw_type) && c.value@ == k[3].text && (!lenient() ==> in_range(c.raw_type, c.value@))
}

pub open spec fn field_is(f: StructField, t: PT) -> bool {
    let k = toks(t.kids);
    &&& type_is(f.val.0, k[0].text)
    &&& f.ident.ident@ == k.last().text
    &&& (f.val.1)@ as int == if k.len() == 3 { length_of(k[1]) } else { 1 }
}

pub open spec fn struct_is(s: Struct, t: PT) -> bool {
    let k = toks(t.kids);
    &&& s.ident.ident@ == k[1].text
    &&& s.fields@.len() == k.len() - 2
    &&& forall|i: int| 0 <= i < s.fields@.len() ==> field_is(#[trigger] s.fields@[i], k[i + 2])
}

/// the text of a documentation, of a comment that is one
/// what unit comments asks of a documentation: it ends with an asterisk and holds no end of a comment
pub open spec fn well_doc(d: Seq<char>) -> bool { d.len() > 0 && d.last() == '*' && forall|i: int| 0 <= i < d.len() - 1 ==> !(#[trigger] d[i] == '*' && d[i + 1] == '/') }
pub open spec fn doc_of(c: PT) -> Option<Seq<char>> { if c.kids.len() > 0 { Some(c.kids[0].text.subrange(2, c.kids[0].text.len() - 1)) } else { None } }

pub open spec fn doc_is(d: Option<Documentation>, s: Option<Seq<char>>) -> bool { match d { Some(x) => s == Some((x.0)@), None => s is None } }

/// the documentation that waits for a member behind these children: ordinary comments do not matter, a member takes it away
pub open spec fn pending(s: Seq<PT>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { None } else if s.last().rule == Rule::COMMENT { if doc_of(s.last()) is Some { doc_of(s.last()) } else { pending(s.drop_last()) } } else { None }
}

/// the members with their documentation
pub open spec fn members(s: Seq<PT>) -> Seq<(PT, Option<Seq<char>>)>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else if s.last().rule == Rule::COMMENT { members(s.drop_last()) } else { members(s.drop_last()).push((s.last(), pending(s.drop_last()))) }
}

pub open spec fn function_is(f: Function, t: PT, doc: Option<Seq<char>>) -> bool {
    let k = toks(t.kids);
    &&& doc_is(f.doc, doc)
    &&& f.ident.ident@ == k[1].text
    &&& f.params@.len() == k.len() - 2
    &&& forall|i: int| 0 <= i < f.params@.len() ==> param_is(#[trigger] f.params@[i], k[i + 2])
    &&& f.attributes@.len() == k[0].kids.len()
    &&& f.attributes@.len() <= 1
}

pub open spec fn member_is(n: InterfaceNode, t: PT, doc: Option<Seq<char>>) -> bool {
    match n {
        InterfaceNode::Const(c) => t.rule == Rule::raw_const && const_is(c, t),
        InterfaceNode::Error(i) => t.rule == Rule::error && i.ident@ == toks(t.kids)[1].text,
        InterfaceNode::Function(f) => t.rule == Rule::function && function_is(f, t, doc),
    }
}

pub open spec fn all_members(n: Seq<InterfaceNode>, m: Seq<(PT, Option<Seq<char>>)>) -> bool {
    n.len() == m.len() && forall|i: int| 0 <= i < n.len() ==> member_is(#[trigger] n[i], m[i].0, m[i].1)
}

pub open spec fn interface_is(i: Interface, t: PT) -> bool {
    exists|m: int| {
        &&& 0 < m < t.kids.len() && #[trigger] name_at(t.kids, m)
        &&& i.ident.ident@ == toks(t.kids[m].kids)[0].text
        &&& i.base is Some == (toks(t.kids[m].kids).len() == 2)
        &&& i.base is Some ==> (i.base->0).ident@ == toks(t.kids[m].kids)[1].text
        &&& all_members(i.nodes@, members(t.kids.skip(m + 1)))
    }
}

pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;

pub open spec fn node_is(n: Node, t: PT) -> bool {
    match n {
        Node::Include(p) => t.rule == Rule::include && path_text(p) == t.kids[0].text,
        Node::Struct(s) => t.rule == Rule::raw_struct && struct_is(s, t),
        Node::Const(c) => t.rule == Rule::raw_const && const_is(c, t),
        Node::Interface(i) => t.rule == Rule::interface && interface_is(i, t),
    }
}

/// the declarations among the children, in their order
pub open spec fn declarations(s: Seq<PT>) -> Seq<PT>
    decreases s.len()
{
    if s.len() == 0 { s } else if declares(s.last().rule) { declarations(s.drop_last()).push(s.last()) } else { declarations(s.drop_last()) }
}

pub open spec fn nodes_are(n: Seq<Rc<Node>>, d: Seq<PT>) -> bool { n.len() == d.len() && forall|i: int| 0 <= i < n.len() ==> node_is(*(#[trigger] n[i]), d[i]) }

// ---------------------------------------------------------------- what the parser may refuse

/// C10: the length of an array is 1 to 65535, buffers have no bounded arrays, a literal is in the range of its type, no attribute twice
pub open spec fn defect(t: PT) -> bool {
    match t.rule {
        Rule::bounded_array => !(1 <= length_of(t) <= 65535),
        Rule::param_type => toks(t.kids)[0].text == "buffer"@ && toks(t.kids).len() == 2 && toks(t.kids)[1].rule == Rule::bounded_array,
        Rule::raw_const => !lenient() && !in_range(type_named(toks(t.kids)[1].text)->0, toks(t.kids)[3].text),
        Rule::function_keyword => t.kids.len() > 1,
        _ => false,
    }
}

pub open spec fn defects_refused() -> bool { forall|t: PT| parsed(t) && #[trigger] defect(t) ==> may_refuse() }

}
