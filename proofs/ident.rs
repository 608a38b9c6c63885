verus! {

/*@ idlc_ast/src/ast.rs | struct Span | derive_Clone,derive_Copy @*/
/*@ idlc_ast/src/ast.rs | struct Ident | @*/

impl Clone for Ident {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { Ident { span: self.span, ident: self.ident.clone() } }
}

impl Ident {
    /// Display writes the characters of `ident`
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        ensures r@ == self.ident@,
    { self.ident.clone() }
}

}
