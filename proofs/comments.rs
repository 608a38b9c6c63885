//@include common
//@include text_spec
verus! {

/*@ idlc_codegen/src/marking.rs | enum MarkingStyle | derive_Clone,derive_Copy @*/
/*@ idlc_codegen/src/marking.rs | struct Marking | @*/

pub open spec fn blocky(x: Seq<char>) -> bool { opened(x) && !pair(x, '\\', 'u') && x.last() == '\n' }

/// what a line of a marking starts with
pub open spec fn prefix_ok(p: Seq<char>, java: bool) -> bool {
    &&& !has_char(p, '\n') && !has_char(p, '\r') && !has_char(p, '\\')
    &&& java ==> !pair(p, '*', '/') && p.len() > 0 && p[0] != '/'
    &&& !java ==> has_prefix(p, "//"@)
}

pub open spec fn more_line(was: Seq<char>, p: Seq<char>, cur: Seq<char>) -> Seq<char> { ((was + p).push(' ') + cur).push('\n') }
pub open spec fn more_slashed(was: Seq<char>, p: Seq<char>, cur: Seq<char>) -> Seq<char> { ((was + p).push(' ') + cur + " //"@).push('\n') }

/// one more line keeps it a comment
pub open spec fn next_ok(was: Seq<char>, now: Seq<char>, java: bool) -> bool {
    &&& java ==> blocky(now)
    &&& !java ==> exists|l: Seq<char>| now == was + #[trigger] l.push('\n') && comment_line(l, "//"@) && !joins(l)
}

pub proof fn next_line(was: Seq<char>, p: Seq<char>, cur: Seq<char>, tail: Seq<char>, java: bool)
    requires
        prefix_ok(p, java), !has_char(cur, '\n'), !has_char(cur, '\r'),
        java ==> blocky(was) && !pair(cur, '*', '/') && !pair(cur, '\\', 'u'),
        tail == " //"@ || tail.len() == 0 && !joins(cur),
    ensures next_ok(was, ((was + p).push(' ') + cur + tail).push('\n'), java),
{
    broadcast use not_white;
    reveal_strlit(" //");
    let now = ((was + p).push(' ') + cur + tail).push('\n');
    let l = p.push(' ') + cur + tail;
    let a = p.push(' ');
    assert(a =~= p + seq![' ']);
    char_cat(p, seq![' '], '\\'); char_cat(p, seq![' '], '\n'); char_cat(p, seq![' '], '\r');
    pair_cat(p, seq![' '], '*', '/'); pair_cat(p, seq![' '], '\\', 'u');
    char_cat(a, cur, '\n'); char_cat(a, cur, '\r');
    pair_cat(a, cur, '*', '/'); pair_cat(a, cur, '\\', 'u');
    char_cat(a + cur, tail, '\n'); char_cat(a + cur, tail, '\r');
    pair_cat(a + cur, tail, '*', '/'); pair_cat(a + cur, tail, '\\', 'u');
    assert(now =~= was + l.push('\n'));
    if java {
        assert(forall|i: int| 0 <= i < p.len() ==> p[i] != '\\');
        pair_cat(was, l, '*', '/'); pair_cat(was, l, '\\', 'u');
        pair_cat(was + l, seq!['\n'], '*', '/'); pair_cat(was + l, seq!['\n'], '\\', 'u');
        assert(now =~= was + l + seq!['\n']);
    } else {
        if joins(l) {
            if tail.len() == 0 {
                assert(l =~= a + cur);
                joins_cat(a, cur);
            } else {
                assert(l.last() == '/');
            }
        }
        assert(has_prefix(l, "//"@)) by { reveal_strlit("//"); assert(l.take("//"@.len() as int) =~= p.take("//"@.len() as int)); }
    }
}

/*@ idlc_codegen/src/marking.rs | fn MarkingStyle::start | 
ret r
spec { ensures self is Java ==> blocky(r@), !(self is Java) ==> r@.len() == 0, }
start { proof { reveal_strlit(""); reveal_strlit("/*\n"); } }
@*/
/*@ idlc_codegen/src/marking.rs | fn MarkingStyle::end | 
ret r
spec { ensures self is Java ==> closes(r@), !(self is Java) ==> r@.len() == 0, }
start { proof { reveal_strlit(""); reveal_strlit("*/\n"); } }
@*/
/*@ idlc_codegen/src/marking.rs | fn MarkingStyle::prefix | 
ret r
spec { ensures prefix_ok(r@, self is Java), }
start { proof { reveal_strlit("//"); reveal_strlit("*"); assert("//"@.take(2) =~= "//"@); } }
@*/

/*@ idlc_codegen/src/marking.rs | fn Marking::new | meth_replace,meth_lines,meth_trim_end,meth_ends_with,meth_to_string,meth_push_str,add_assign,for_into_all
ret r
sub style == MarkingStyle::Java => matches!(style, MarkingStyle::Java)
spec {
    ensures
        marking@.len() == 0 ==> r.0@.len() == 0,
        marking@.len() > 0 && style is Java ==> block_comment(r.0@) && !pair(r.0@, '\\', 'u'),
        !(style is Java) ==> line_comments(r.0@, "//"@),
}
start {
    broadcast use not_white;
    let ghost m0 = marking@;
    proof {
        let m1 = replaced(replaced(m0, "\r\n"@, "\n"@), seq!['\r'], "\n"@);
        let m2 = replaced(m1, "*/"@, "* /"@);
        no_returns(m0);
        reveal_strlit("*/");
        reveal_strlit("* /");
        assert("*/"@ =~= seq!['*', '/']);
        assert("* /"@ =~= seq!['*', ' ', '/']);
        replaced_removes(m1, '*', '/', "* /"@);
        replaced_absent(m1, "*/"@, "* /"@, '\r');
        no_escapes(m2);
        assert(lines_ok(Seq::<Seq<char>>::empty(), "//"@) && none_joins(Seq::<Seq<char>>::empty()));
        assert(block(Seq::<Seq<char>>::empty()) =~= Seq::<char>::empty());
    }
}
before 0 {
    let ghost text = marking@;
    let ghost java = style is Java;
    let ghost all = lines_of(text);
    let ghost mut done = 0int;
    let ghost mut ls: Seq<Seq<char>> = Seq::empty();
    proof { lines_fine(text); assert(all.skip(0) =~= all); }
}
loop 0 {
    invariant
        java == style is Java,
        !has_char(text, '\r'),
        java ==> !pair(text, '*', '/') && !pair(text, '\\', 'u'),
        all == lines_of(text), 0 <= done <= all.len(), verif_iter@ == all.skip(done),
        forall|k: int| 0 <= k < all.len() ==> fine_line(#[trigger] all[k], text),
        java ==> blocky(documentation@),
        !java ==> documentation@ == block(ls),
        !java ==> lines_ok(ls, "//"@),
        !java ==> none_joins(ls),
    decreases all.len() - done,
}
body 0 {
    broadcast use not_white;
    let ghost was = documentation@;
    let ghost cur = if done < all.len() { all[done] } else { Seq::empty() };
    proof {
        if done < all.len() {
            assert(fine_line(all[done], text));
            assert forall|p: Seq<char>| #[trigger] prefix_ok(p, java) implies (!joins(cur) ==> next_ok(was, more_line(was, p, cur), java)) && next_ok(was, more_slashed(was, p, cur), java) by {
                next_line(was, p, cur, " //"@, java);
                let none = Seq::<char>::empty();
                if !joins(cur) { next_line(was, p, cur, none, java); assert((was + p).push(' ') + cur + none =~= (was + p).push(' ') + cur); }
            }
        }
    }
    proof { if done < all.len() { assert(all.skip(done)[0] == all[done]); assert(all.skip(done).skip(1) =~= all.skip(done + 1)); assert(fine_line(all[done], text)); done = done + 1; } }
}
end 0 {
    proof {
        let now = documentation@;
        assert(next_ok(was, now, java));
        if !java {
            let l = choose|l: Seq<char>| now == was + #[trigger] l.push('\n') && comment_line(l, "//"@) && !joins(l);
            block_push(ls, l);
            ls = ls.push(l);
        }
    }
}
after 0 {
    proof {
        let d = documentation@;
        let none = Seq::<char>::empty();
        block_push(ls, none);
        assert(!joins(none));
        assert(!java ==> none_joins(ls.push(none)) && lines_ok(ls.push(none), "//"@));
        assert forall|e: Seq<char>| #[trigger] e.len() == 0 implies block(ls) + none.push('\n') == (block(ls) + e).push('\n') by { assert(block(ls) + none.push('\n') =~= (block(ls) + e).push('\n')); }
        assert forall|e: Seq<char>| java && #[trigger] closes(e) implies block_comment((d + e).push('\n')) && !pair((d + e).push('\n'), '\\', 'u') by {
            let f = e.push('\n');
            assert((d + e).push('\n') =~= d + f);
            assert(closes(f));
            pair_cat(d, f, '\\', 'u');
        }
    }
}
@*/

/*@ idlc_codegen/src/documentation.rs | enum DocumentationStyle | derive_Clone,derive_Copy @*/
/*@ idlc_codegen/src/documentation.rs | struct Documentation | @*/
/// of a function of the MIR: its documentation, the rest is of no concern here
pub struct Function { pub doc: Option<String> }

/// what the grammar makes of a documentation block (unit pst, shapes checked there): the text between the first and the last slash
pub open spec fn well_doc(d: Seq<char>) -> bool { d.len() > 0 && d.last() == '*' && !pair(d, '*', '/') }

/// lines of documentation comments of Rust
pub open spec fn doc_lines(t: Seq<char>) -> bool { exists|ls: Seq<Seq<char>>, l: Seq<char>| t == #[trigger] (block(ls) + l) && doc_all(ls) && comment_line(l, "///"@) }
pub open spec fn doc_all(ls: Seq<Seq<char>>) -> bool { forall|k: int| 0 <= k < ls.len() ==> comment_line(#[trigger] ls[k], "///"@) }

pub open spec fn doc_open(x: Seq<char>, style: DocumentationStyle) -> bool { opened(x) && (style is Java ==> !pair(x, '\\', 'u')) }

/*@ idlc_codegen/src/documentation.rs | fn DocumentationStyle::start | 
ret r
spec { ensures self is Rust ==> comment_line(r@, "///"@), !(self is Rust) ==> doc_open(r@, self), }
start { proof { reveal_strlit("///<pre>"); reveal_strlit("/*"); reveal_strlit("/**"); reveal_strlit("///"); assert("///<pre>"@.take(3) =~= "///"@); } }
@*/
/*@ idlc_codegen/src/documentation.rs | fn DocumentationStyle::end | 
ret r
spec { ensures self is Rust ==> comment_line(r@, "///"@), !(self is Rust) ==> closes(r@), }
start { proof { reveal_strlit("///</pre>"); reveal_strlit("*/"); reveal_strlit("///"); assert("///</pre>"@.take(3) =~= "///"@); } }
@*/
/*@ idlc_codegen/src/documentation.rs | fn DocumentationStyle::prefix | 
ret r
spec { ensures doc_prefix(r@, self is Rust), }
start { proof { reveal_strlit("///"); reveal_strlit("*"); assert("///"@.take(3) =~= "///"@); } }
@*/

/// what a line of documentation starts with
pub open spec fn doc_prefix(p: Seq<char>, rust: bool) -> bool {
    &&& !has_char(p, '\n') && !has_char(p, '\r') && !has_char(p, '\\')
    &&& rust ==> has_prefix(p, "///"@)
    &&& !rust ==> !pair(p, '*', '/') && p.len() > 0 && p[0] != '/'
}

/// what may stand behind it
pub open spec fn doc_text(c: Seq<char>, style: DocumentationStyle) -> bool {
    !has_char(c, '\n') && !has_char(c, '\r') && !pair(c, '*', '/') && (style is Java ==> !pair(c, '\\', 'u'))
}

pub open spec fn doc_next(was: Seq<char>, now: Seq<char>, style: DocumentationStyle) -> bool {
    &&& !(style is Rust) ==> doc_open(now, style) && now.last() == '\n'
    &&& style is Rust ==> exists|l: Seq<char>| now == was + #[trigger] l.push('\n') && comment_line(l, "///"@)
}

/// a line: what it starts with alone, or with a space and a text behind it
pub proof fn doc_line(was: Seq<char>, p: Seq<char>, c: Seq<char>, style: DocumentationStyle)
    requires
        doc_prefix(p, style is Rust), doc_text(c, style),
        !(style is Rust) ==> doc_open(was, style) && was.last() == '\n',
    ensures
        doc_next(was, (was + p).push('\n'), style),
        doc_next(was, ((was + p).push(' ') + c).push('\n'), style),
{
    reveal_strlit("///");
    let sp = seq![' '];
    let nl = seq!['\n'];
    let l = p + sp + c;
    char_cat(p, sp, '\n'); char_cat(p, sp, '\r');
    char_cat(p + sp, c, '\n'); char_cat(p + sp, c, '\r');
    assert((was + p).push('\n') =~= was + p.push('\n'));
    assert(((was + p).push(' ') + c).push('\n') =~= was + l.push('\n'));
    if style is Rust {
        assert(l.take(3) =~= p.take(3));
    } else {
        assert(forall|i: int| 0 <= i < p.len() ==> p[i] != '\\');
        pair_cat(was, p, '*', '/'); pair_cat(was, p, '\\', 'u');
        pair_cat(was + p, nl, '*', '/'); pair_cat(was + p, nl, '\\', 'u');
        pair_cat(was + p, sp, '*', '/'); pair_cat(was + p, sp, '\\', 'u');
        pair_cat(was + p + sp, c, '*', '/'); pair_cat(was + p + sp, c, '\\', 'u');
        pair_cat(was + p + sp + c, nl, '*', '/'); pair_cat(was + p + sp + c, nl, '\\', 'u');
        assert((was + p).push('\n') =~= was + p + nl);
        assert(((was + p).push(' ') + c).push('\n') =~= was + p + sp + c + nl);
    }
}

pub open spec fn doc_lines_next(was: Seq<char>, p: Seq<char>, c: Seq<char>, style: DocumentationStyle) -> bool {
    &&& doc_next(was, (was + p).push('\n'), style)
    &&& doc_next(was, ((was + p).push(' ') + c).push('\n'), style)
    &&& c.len() > 0 ==> doc_next(was, ((was + p).push(' ') + c.skip(1)).push('\n'), style)
}

/*@ idlc_codegen/src/documentation.rs | fn Documentation::new_with_idlc_doc | meth_replace,meth_lines,meth_trim_end,meth_find,meth_to_string,meth_push_str,add_assign,for_into_all,str_from,opt_unwrap
ret r
sub line.get(indent..).unwrap_or_default() => from_byte(line, indent)
sub docstring.chars().next() => first_char(docstring)
sub skip_while(|x| x.is_empty()) => skip_empty()
spec {
    requires well_doc(doc@),
    ensures
        !(style is Rust) ==> block_comment(r.0@),
        style is Java ==> !pair(r.0@, '\\', 'u'),
        style is Rust ==> doc_lines(r.0@),
}
start {
    let ghost d0 = doc@;
    proof {
        let m1 = replaced(replaced(d0, "\r\n"@, "\n"@), seq!['\r'], "\n"@);
        no_returns(d0);
        no_escapes(m1);
        reveal_strlit("/*");
        reveal_strlit("/ *");
        assert("/*"@ =~= seq!['/', '*']);
        assert("/ *"@ =~= seq!['/', ' ', '*']);
        replaced_keeps(m1, "/*"@, "/ *"@, '*', '/');
        replaced_absent(m1, "/*"@, "/ *"@, '\r');
        replaced_last(m1, "/*"@, "/ *"@, '*');
        last_line(m1, '*');
        last_line(replaced(m1, "/*"@, "/ *"@), '*');
        last_line(replaced(m1, "\\u"@, "\\ u"@), '*');
    }
}
before 0 {
    let ghost text = doc@;
    let ghost all = verif_iter@;
    let ghost mut done = 0int;
    let ghost first = documentation@.subrange(0, documentation@.len() - 1);
    let ghost mut ls: Seq<Seq<char>> = Seq::empty();
    proof {
        lines_fine(text);
        assert(all.skip(0) =~= all);
        assert forall|x: Seq<char>| (#[trigger] x.push('\n')).subrange(0, x.len() as int) == x by { assert(x.push('\n').subrange(0, x.len() as int) =~= x); }
        assert(documentation@ =~= first.push('\n'));
        if style is Rust {
            let none = Seq::<Seq<char>>::empty();
            block_push(none, first);
            assert(block(none) + first.push('\n') =~= first.push('\n'));
            ls = none.push(first);
            assert(comment_line(first, "///"@));
            assert(doc_all(ls));
            assert(documentation@ =~= block(ls));
        } else {
            pair_cat(first, seq!['\n'], '*', '/');
            pair_cat(first, seq!['\n'], '\\', 'u');
            assert(documentation@ =~= first + seq!['\n']);
        }
    }
}
loop 0 {
    invariant
        0 <= done <= all.len(), verif_iter@ == all.skip(done),
        forall|k: int| 0 <= k < all.len() ==> fine_line(#[trigger] all[k], text),
        !has_char(text, '\r'), !pair(text, '*', '/'), style is Java ==> !pair(text, '\\', 'u'),
        !(style is Rust) ==> doc_open(documentation@, style) && documentation@.last() == '\n',
        style is Rust ==> documentation@ == block(ls) && doc_all(ls),
    decreases all.len() - done,
}
body 0 {
    let ghost was = documentation@;
    let ghost cur = if done < all.len() { all[done] } else { Seq::empty() };
    proof {
        if done < all.len() {
            assert(fine_line(all[done], text));
            assert forall|p: Seq<char>, k: int| #[trigger] doc_prefix(p, style is Rust) && 0 <= k <= cur.len()
                implies doc_lines_next(was, p, trimmed(#[trigger] cur.skip(k)), style) by {
                let c = trimmed(cur.skip(k));
                trimmed_piece(cur.skip(k));
                assert(cur.skip(k) =~= cur.subrange(k, cur.len() as int));
                piece_piece(c, cur.skip(k), cur);
                piece_fine(c, cur);
                doc_line(was, p, c, style);
                if c.len() > 0 {
                    assert(c.skip(1) =~= c.subrange(1, c.len() as int));
                    piece_fine(c.skip(1), c);
                    doc_line(was, p, c.skip(1), style);
                }
            }
            assert(all.skip(done)[0] == all[done]);
            assert(all.skip(done).skip(1) =~= all.skip(done + 1));
            done = done + 1;
        }
    }
}
end 0 {
    proof {
        let now = documentation@;
        assert(doc_next(was, now, style));
        if style is Rust {
            let l = choose|l: Seq<char>| now == was + #[trigger] l.push('\n') && comment_line(l, "///"@);
            block_push(ls, l);
            ls = ls.push(l);
        }
    }
}
after 0 {
    proof {
        let d = documentation@;
        assert forall|e: Seq<char>| !(style is Rust) && #[trigger] closes(e) implies block_comment(d + e) && (style is Java ==> !pair(d + e, '\\', 'u')) by {
            pair_cat(d, e, '\\', 'u');
        }
    }
}
@*/

/*@ idlc_codegen/src/documentation.rs | fn Documentation::new | opt_map_or_else
ret r
spec {
    requires function.doc is Some ==> well_doc((function.doc->0)@),
    ensures
        function.doc is None ==> r.0@.len() == 0,
        function.doc is Some && !(style is Rust) ==> block_comment(r.0@),
        function.doc is Some && style is Java ==> !pair(r.0@, '\\', 'u'),
        function.doc is Some && style is Rust ==> doc_lines(r.0@),
}
@*/

}
fn main() {}
