// String as a key: Eq and Hash of String look at the characters, and every string is a key of its own
verus! {

pub uninterp spec fn skey(n: Seq<char>) -> Key;

pub uninterp spec fn sname(k: Key) -> Seq<char>;

pub broadcast axiom fn string_key(s: String)
    ensures #[trigger] key(s) == skey(s@);

pub broadcast axiom fn skey_sname(n: Seq<char>)
    ensures sname(#[trigger] skey(n)) == n;

pub broadcast axiom fn sname_skey(k: Key)
    ensures skey(#[trigger] sname(k)) == k;

}
