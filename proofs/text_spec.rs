// Strings as sequences of characters: replacing, lines, and what makes a text a comment (C14).
verus! {

pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }

/// str::replace: occurrences that do not overlap, from the left
pub open spec fn replaced(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || p.len() == 0 { s }
    else if has_prefix(s, p) { q + replaced(s.skip(p.len() as int), p, q) }
    else { seq![s[0]] + replaced(s.skip(1), p, q) }
}

/// the first line of a text, without its end; the rest behind it
pub open spec fn line_end(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + line_end(s.skip(1)) }
}
pub open spec fn without_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }

/// str::lines: a line end is \n or \r\n, the last line need not have one
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len() via lines_shrink
{
    if s.len() == 0 { Seq::empty() }
    else if line_end(s) >= s.len() { seq![s] }
    else { seq![without_cr(s.take(line_end(s)))] + lines_of(s.skip(line_end(s) + 1)) }
}
#[via_fn]
proof fn lines_shrink(s: Seq<char>) { line_end_in(s); }

pub proof fn line_end_in(s: Seq<char>)
    ensures 0 <= line_end(s) <= s.len(), line_end(s) < s.len() ==> s[line_end(s)] == '\n', forall|i: int| 0 <= i < line_end(s) ==> #[trigger] s[i] != '\n',
    decreases s.len()
{
    if s.len() > 0 && s[0] != '\n' {
        line_end_in(s.skip(1));
        assert forall|i: int| 0 <= i < line_end(s) implies #[trigger] s[i] != '\n' by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}

/// a directly before b
pub open spec fn pair(s: Seq<char>, a: char, b: char) -> bool { exists|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] == a && s[i + 1] == b }
pub open spec fn has_char(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c }

/// a piece of a text
pub open spec fn piece(t: Seq<char>, s: Seq<char>) -> bool { exists|i: int, j: int| 0 <= i <= j <= s.len() && t == #[trigger] s.subrange(i, j) }

pub proof fn piece_keeps(t: Seq<char>, s: Seq<char>, a: char, b: char)
    requires piece(t, s),
    ensures pair(t, a, b) ==> pair(s, a, b), has_char(t, a) ==> has_char(s, a), t.len() <= s.len(),
{
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= s.len() && t == #[trigger] s.subrange(i, j);
    if pair(t, a, b) {
        let k = choose|k: int| 0 <= k < t.len() - 1 && #[trigger] t[k] == a && t[k + 1] == b;
        assert(s[i + k] == a && s[i + k + 1] == b);
    }
    if has_char(t, a) {
        let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == a;
        assert(s[i + k] == a);
    }
}

pub proof fn piece_piece(u: Seq<char>, t: Seq<char>, s: Seq<char>)
    requires piece(u, t), piece(t, s),
    ensures piece(u, s),
{
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= s.len() && t == #[trigger] s.subrange(i, j);
    let (k, l) = choose|k: int, l: int| 0 <= k <= l <= t.len() && u == #[trigger] t.subrange(k, l);
    assert(u =~= s.subrange(i + k, i + l));
}

/// where two texts meet
pub proof fn pair_cat(x: Seq<char>, y: Seq<char>, a: char, b: char)
    ensures pair(x + y, a, b) <==> pair(x, a, b) || pair(y, a, b) || (x.len() > 0 && y.len() > 0 && x.last() == a && y[0] == b),
{
    let s = x + y;
    let n = x.len() as int;
    if pair(s, a, b) {
        let i = choose|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] == a && s[i + 1] == b;
        if i + 1 < n { assert(x[i] == a && x[i + 1] == b); }
        else if i >= n { assert(y[i - n] == a && y[i - n + 1] == b); }
    }
    if pair(x, a, b) {
        let i = choose|i: int| 0 <= i < x.len() - 1 && #[trigger] x[i] == a && x[i + 1] == b;
        assert(s[i] == a && s[i + 1] == b);
    }
    if pair(y, a, b) {
        let i = choose|i: int| 0 <= i < y.len() - 1 && #[trigger] y[i] == a && y[i + 1] == b;
        assert(s[n + i] == a && s[n + i + 1] == b);
    }
    if x.len() > 0 && y.len() > 0 && x.last() == a && y[0] == b { assert(s[n - 1] == a && s[n] == b); }
}

/// replacing adds no such pair where the replacement neither holds one nor starts or ends with a half of one that was not there
pub proof fn replaced_keeps(s: Seq<char>, p: Seq<char>, q: Seq<char>, a: char, b: char)
    requires
        !pair(s, a, b), p.len() > 0, q.len() > 0, !pair(q, a, b),
        q[0] == p[0] || q[0] != b, q.last() == p.last() || q.last() != a,
    ensures
        !pair(replaced(s, p, q), a, b), replaced(s, p, q).len() > 0 <==> s.len() > 0,
        s.len() > 0 && replaced(s, p, q)[0] == b ==> s[0] == b,
    decreases s.len()
{
    if s.len() > 0 {
        let k = if has_prefix(s, p) { p.len() as int } else { 1 };
        let h = if has_prefix(s, p) { q } else { seq![s[0]] };
        let rest = s.skip(k);
        assert forall|i: int| 0 <= i < rest.len() - 1 implies !(#[trigger] rest[i] == a && rest[i + 1] == b) by { assert(s[i + k] == rest[i] && s[i + k + 1] == rest[i + 1]); }
        replaced_keeps(rest, p, q, a, b);
        pair_cat(h, replaced(rest, p, q), a, b);
        if has_prefix(s, p) { assert(s.take(k)[0] == p[0]); assert(s.take(k)[k - 1] == p.last()); }
        if rest.len() > 0 {
            assert(s[k - 1] == h.last() || h.last() != a);
            assert(rest[0] == s[k]);
        }
    }
}

/// replacing a pair by something else leaves none
pub proof fn replaced_removes(s: Seq<char>, a: char, b: char, q: Seq<char>)
    requires a != b, q.len() > 1, q[0] == a, q.last() == b, !pair(q, a, b),
    ensures
        !pair(replaced(s, seq![a, b], q), a, b), replaced(s, seq![a, b], q).len() > 0 <==> s.len() > 0,
        s.len() > 0 ==> replaced(s, seq![a, b], q)[0] == s[0],
    decreases s.len()
{
    let p = seq![a, b];
    if s.len() > 0 {
        let k = if has_prefix(s, p) { 2 } else { 1 };
        let h = if has_prefix(s, p) { q } else { seq![s[0]] };
        replaced_removes(s.skip(k), a, b, q);
        pair_cat(h, replaced(s.skip(k), p, q), a, b);
        if has_prefix(s, p) { assert(s.take(2)[0] == p[0]); }
        else if s.len() > 1 && s[0] == a && s[1] == b { assert(s.take(2) =~= p); }
    }
}

/// a character that is replaced is gone
pub proof fn replaced_gone(s: Seq<char>, c: char, q: Seq<char>)
    requires !has_char(q, c),
    ensures !has_char(replaced(s, seq![c], q), c),
    decreases s.len()
{
    let p = seq![c];
    if s.len() > 0 {
        replaced_gone(s.skip(1), c, q);
        let r = replaced(s, p, q);
        let t = replaced(s.skip(1), p, q);
        if s[0] == c { assert(s.take(1) =~= p); }
        else if has_prefix(s, p) { assert(s.take(1)[0] == p[0]); }
        let h = if has_prefix(s, p) { q } else { seq![s[0]] };
        assert(r == h + t);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != c by {
            if i < h.len() { assert(r[i] == h[i]); } else { assert(r[i] == t[i - h.len()]); }
        }
    }
}

/// and none of another character appears
pub proof fn replaced_absent(s: Seq<char>, p: Seq<char>, q: Seq<char>, c: char)
    requires !has_char(s, c), !has_char(q, c), p.len() > 0,
    ensures !has_char(replaced(s, p, q), c),
    decreases s.len()
{
    if s.len() > 0 {
        let k = if has_prefix(s, p) { p.len() as int } else { 1 };
        let h = if has_prefix(s, p) { q } else { seq![s[0]] };
        let rest = s.skip(k);
        assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] != c by { assert(s[i + k] == rest[i]); }
        replaced_absent(rest, p, q, c);
        let r = replaced(s, p, q);
        let t = replaced(rest, p, q);
        assert(r == h + t);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != c by {
            if i < h.len() { assert(r[i] == h[i]); } else { assert(r[i] == t[i - h.len()]); }
        }
    }
}

/// the last character stays where the replacement ends like what it replaces, or it is not part of it
pub proof fn replaced_last(s: Seq<char>, p: Seq<char>, q: Seq<char>, c: char)
    requires s.len() > 0, s.last() == c, p.len() > 0, q.len() > 0, p.last() != c || q.last() == c,
    ensures replaced(s, p, q).len() > 0, replaced(s, p, q).last() == c,
    decreases s.len()
{
    let k = if has_prefix(s, p) { p.len() as int } else { 1 };
    if k < s.len() { replaced_last(s.skip(k), p, q, c); }
    else if has_prefix(s, p) { assert(s.take(k) =~= s); assert(replaced(s.skip(k), p, q) =~= Seq::<char>::empty()); assert(replaced(s, p, q) =~= q); }
    else { assert(replaced(s.skip(1), p, q) =~= Seq::<char>::empty()); }
}

/// a line is a piece of the text, without an end of a line
pub proof fn lines_pieces(s: Seq<char>)
    ensures forall|k: int| 0 <= k < lines_of(s).len() ==> piece(#[trigger] lines_of(s)[k], s) && !has_char(lines_of(s)[k], '\n'),
    decreases s.len()
{
    line_end_in(s);
    let e = line_end(s);
    if s.len() == 0 {
    } else if e >= s.len() {
        assert(s =~= s.subrange(0, s.len() as int));
        assert(!has_char(s, '\n'));
    } else {
        let rest = s.skip(e + 1);
        lines_pieces(rest);
        let first = without_cr(s.take(e));
        assert(first =~= s.subrange(0, first.len() as int));
        assert forall|i: int| 0 <= i < first.len() implies #[trigger] first[i] != '\n' by { assert(first[i] == s[i]); }
        assert forall|k: int| 0 <= k < lines_of(s).len() implies piece(#[trigger] lines_of(s)[k], s) && !has_char(lines_of(s)[k], '\n') by {
            if k > 0 {
                assert(lines_of(s)[k] == lines_of(rest)[k - 1]);
                assert(rest =~= s.subrange(e + 1, s.len() as int));
                piece_piece(lines_of(s)[k], rest, s);
            }
        }
    }
}

/// a text that does not end with a line's end: the last line ends like it
pub proof fn last_line(s: Seq<char>, c: char)
    requires s.len() > 0, s.last() == c, c != '\n',
    ensures lines_of(s).len() > 0, lines_of(s).last().len() > 0, lines_of(s).last().last() == c, has_char(lines_of(s).last(), c),
    decreases s.len()
{
    line_end_in(s);
    let e = line_end(s);
    if e < s.len() {
        assert(e + 1 < s.len());
        last_line(s.skip(e + 1), c);
        assert(lines_of(s).last() == lines_of(s.skip(e + 1)).last());
    }
    let l = lines_of(s).last();
    assert(l[l.len() - 1] == c);
}

// ---------------------------------------------------------------- comments

pub uninterp spec fn white(c: char) -> bool;

/// str::trim_end
pub open spec fn trimmed(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && white(s.last()) { trimmed(s.drop_last()) } else { s }
}

pub proof fn trimmed_piece(s: Seq<char>)
    ensures piece(trimmed(s), s), trimmed(s).len() <= s.len(), trimmed(s) == s.take(trimmed(s).len() as int),
    decreases s.len()
{
    if s.len() > 0 && white(s.last()) {
        trimmed_piece(s.drop_last());
        let n = trimmed(s).len() as int;
        assert(s.drop_last().take(n) =~= s.take(n));
        assert(trimmed(s) =~= s.subrange(0, n));
    } else {
        assert(s =~= s.subrange(0, s.len() as int));
        assert(s =~= s.take(s.len() as int));
    }
}

/// lines that each are a comment, whole: they start so, no line ends within, and the next line is not joined to it
pub open spec fn comment_line(l: Seq<char>, start: Seq<char>) -> bool {
    has_prefix(l, start) && !has_char(l, '\n') && !has_char(l, '\r')
}
pub open spec fn joins(l: Seq<char>) -> bool { trimmed(l).len() > 0 && trimmed(l).last() == '\\' }

pub open spec fn block(ls: Seq<Seq<char>>) -> Seq<char>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { block(ls.drop_last()) + ls.last().push('\n') }
}

// ---------------------------------------------------------------- std

pub trait Pattern { spec fn pat(&self) -> Seq<char>; }
impl<'a> Pattern for &'a str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl Pattern for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }

pub trait Text {
    spec fn tx(&self) -> Seq<char>;
    fn replace_<P: Pattern>(&self, p: P, q: &str) -> (r: String)
        ensures r@ == replaced(self.tx(), p.pat(), q@);
    fn lines_(&self) -> (r: Lines<'_>)
        ensures r@ == lines_of(self.tx());
    fn trim_end_(&self) -> (r: &str)
        ensures r@ == trimmed(self.tx());
    fn find_(&self, c: char) -> (r: Option<usize>)
        ensures r is Some <==> has_char(self.tx(), c);
    fn ends_with_(&self, c: char) -> (r: bool)
        ensures r == (self.tx().len() > 0 && self.tx().last() == c);
}
impl Text for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn replace_<P: Pattern>(&self, p: P, q: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn lines_(&self) -> (r: Lines<'_>) { unimplemented!() }
    #[verifier::external_body]
    fn trim_end_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn find_(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn ends_with_(&self, c: char) -> (r: bool) { unimplemented!() }
}

#[verifier::external_body]
pub struct Lines<'a> { x: std::marker::PhantomData<&'a u8> }
impl<'a> View for Lines<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> Lines<'a> {
    pub fn into_iter(self) -> (r: Self) ensures r@ == self@, { self }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<&'a str>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && (r->0)@ == self@.last(), { unimplemented!() }
    /// skip_while(|x| x.is_empty())
    #[verifier::external_body]
    pub fn skip_empty(self) -> (r: Self) ensures exists|k: int| 0 <= k <= self@.len() && r@ == #[trigger] self@.skip(k), { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}

/// s.get(a..).unwrap_or_default(): the text from a byte on, nothing where there is no character's boundary
#[verifier::external_body]
pub fn from_byte(s: &str, a: usize) -> (r: &str) ensures exists|k: int| 0 <= k <= s@.len() && r@ == #[trigger] s@.skip(k), { unimplemented!() }
/// s.chars().next()
#[verifier::external_body]
pub fn first_char(s: &str) -> (r: Option<char>) ensures r is Some <==> s@.len() > 0, r is Some ==> r->0 == s@[0], { unimplemented!() }
/// s[a..]: at a boundary, or the compiler stops. Up to the first a characters, which are of one byte
#[verifier::external_body]
pub fn str_from(s: &str, a: usize) -> (r: &str)
    requires a <= s@.len(), forall|i: int| 0 <= i < a ==> (#[trigger] s@[i] as u32) < 0x80,
    ensures r@ == s@.skip(a as int),
{ unimplemented!() }

pub trait Owned { spec fn ow(&self) -> Seq<char>; fn to_string_(&self) -> (r: String) ensures r@ == self.ow(); }
impl Owned for str {
    open spec fn ow(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}
pub trait Pushed { spec fn pu(&self) -> Seq<char>; fn push_str_(&mut self, e: &str) ensures final(self).pu() == old(self).pu() + e@; }
impl Pushed for String {
    open spec fn pu(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn push_str_(&mut self, e: &str) { unimplemented!() }
}

}
verus! {

// ---------------------------------------------------------------- the two kinds of comments

#[verifier::external_body]
pub broadcast proof fn not_white()
    ensures #[trigger] white('/') == false, white('\\') == false,
{}

/// the start of a comment that goes on
pub open spec fn opened(x: Seq<char>) -> bool {
    x.len() >= 2 && x[0] == '/' && x[1] == '*' && !pair(x, '*', '/')
}
/// its end, and nothing but line ends behind
pub open spec fn closes(e: Seq<char>) -> bool { e.len() >= 2 && e[0] == '*' && e[1] == '/' && forall|i: int| 2 <= i < e.len() ==> #[trigger] e[i] == '\n' }

/// one comment, up to its end
pub open spec fn block_comment(t: Seq<char>) -> bool { exists|x: Seq<char>, e: Seq<char>| t == #[trigger] (x + e) && opened(x) && closes(e) && x.last() == '\n' }

/// lines of comments, with nothing between them
pub open spec fn line_ok(l: Seq<char>, start: Seq<char>) -> bool { l.len() == 0 || comment_line(l, start) }
pub open spec fn lines_ok(ls: Seq<Seq<char>>, start: Seq<char>) -> bool { forall|k: int| 0 <= k < ls.len() ==> line_ok(#[trigger] ls[k], start) }
pub open spec fn none_joins(ls: Seq<Seq<char>>) -> bool { forall|k: int| 0 <= k < ls.len() ==> !joins(#[trigger] ls[k]) }
pub open spec fn line_comments(t: Seq<char>, start: Seq<char>) -> bool { exists|ls: Seq<Seq<char>>| t == #[trigger] block(ls) && lines_ok(ls, start) && none_joins(ls) }

pub proof fn joins_cat(x: Seq<char>, l: Seq<char>)
    requires joins(x + l), !has_char(x, '\\'),
    ensures joins(l),
    decreases l.len()
{
    trimmed_piece(x + l);
    let n = trimmed(x + l).len() as int;
    if l.len() == 0 {
        assert(x + l =~= x);
        assert(x.take(n)[n - 1] == x[n - 1]);
    } else if white(l.last()) {
        assert((x + l).drop_last() =~= x + l.drop_last());
        joins_cat(x, l.drop_last());
    } else {
        assert((x + l).last() == l.last());
    }
}

pub proof fn block_push(ls: Seq<Seq<char>>, l: Seq<char>)
    ensures block(ls.push(l)) == block(ls) + l.push('\n'),
{
    assert(ls.push(l).drop_last() =~= ls);
}

/// what holds for a text holds for its lines
pub proof fn lines_fine(s: Seq<char>)
    ensures forall|k: int| 0 <= k < lines_of(s).len() ==> fine_line(#[trigger] lines_of(s)[k], s),
{
    lines_pieces(s);
    assert forall|k: int| 0 <= k < lines_of(s).len() implies fine_line(#[trigger] lines_of(s)[k], s) by {
        let l = lines_of(s)[k];
        piece_fine(l, s);
    }
}
pub open spec fn fine_piece(l: Seq<char>, s: Seq<char>) -> bool {
    (has_char(l, '\r') ==> has_char(s, '\r')) && (pair(l, '*', '/') ==> pair(s, '*', '/')) && (pair(l, '\\', 'u') ==> pair(s, '\\', 'u')) && (has_char(l, '\n') ==> has_char(s, '\n'))
}
pub open spec fn fine_line(l: Seq<char>, s: Seq<char>) -> bool { fine_piece(l, s) && !has_char(l, '\n') }
pub proof fn piece_fine(l: Seq<char>, s: Seq<char>)
    requires piece(l, s),
    ensures fine_piece(l, s),
{
    piece_keeps(l, s, '\r', '\r');
    piece_keeps(l, s, '\n', '\n');
    piece_keeps(l, s, '*', '/');
    piece_keeps(l, s, '\\', 'u');
}

pub proof fn char_cat(x: Seq<char>, y: Seq<char>, c: char)
    ensures has_char(x + y, c) <==> has_char(x, c) || has_char(y, c),
{
    let s = x + y;
    let n = x.len() as int;
    if has_char(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == c; if i < n { assert(x[i] == c); } else { assert(y[i - n] == c); } }
    if has_char(x, c) { let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] == c; assert(s[i] == c); }
    if has_char(y, c) { let i = choose|i: int| 0 <= i < y.len() && #[trigger] y[i] == c; assert(s[n + i] == c); }
}

/// the text of line ends: \r\n and \r become \n
pub proof fn no_returns(s: Seq<char>)
    ensures ({
        let t = replaced(replaced(s, "\r\n"@, "\n"@), seq!['\r'], "\n"@);
        !has_char(t, '\r') && (!pair(s, '*', '/') ==> !pair(t, '*', '/')) && (s.len() > 0 && s.last() == '*' ==> t.len() > 0 && t.last() == '*')
    }),
{
    reveal_strlit("\r\n");
    reveal_strlit("\n");
    let u = replaced(s, "\r\n"@, "\n"@);
    assert("\r\n"@ =~= seq!['\r', '\n']);
    assert("\n"@ =~= seq!['\n']);
    replaced_gone(u, '\r', "\n"@);
    if !pair(s, '*', '/') {
        replaced_keeps(s, "\r\n"@, "\n"@, '*', '/');
        replaced_keeps(u, seq!['\r'], "\n"@, '*', '/');
    }
    if s.len() > 0 && s.last() == '*' {
        replaced_last(s, "\r\n"@, "\n"@, '*');
        replaced_last(u, seq!['\r'], "\n"@, '*');
    }
}

/// no escape of Java
pub proof fn no_escapes(s: Seq<char>)
    ensures ({
        let t = replaced(s, "\\u"@, "\\ u"@);
        !pair(t, '\\', 'u') && (!pair(s, '*', '/') ==> !pair(t, '*', '/')) && (!has_char(s, '\r') ==> !has_char(t, '\r')) && (s.len() > 0 && s.last() == '*' ==> t.len() > 0 && t.last() == '*')
    }),
{
    reveal_strlit("\\u");
    reveal_strlit("\\ u");
    assert("\\u"@ =~= seq!['\\', 'u']);
    assert("\\ u"@ =~= seq!['\\', ' ', 'u']);
    replaced_removes(s, '\\', 'u', "\\ u"@);
    if !pair(s, '*', '/') { replaced_keeps(s, "\\u"@, "\\ u"@, '*', '/'); }
    if !has_char(s, '\r') { replaced_absent(s, "\\u"@, "\\ u"@, '\r'); }
    if s.len() > 0 && s.last() == '*' { replaced_last(s, "\\u"@, "\\ u"@, '*'); }
}

}
