// the rest of the AST
verus! {

/*@ idlc_ast/src/ast.rs | enum Node | @*/
/*@ idlc_ast/src/ast.rs | struct Ast | @*/
/*@ idlc_ast/src/ast.rs | struct Interface | @*/
/*@ idlc_ast/src/ast.rs | enum InterfaceNode | @*/
/*@ idlc_ast/src/ast.rs | struct Function | @*/
/*@ idlc_ast/src/ast.rs | struct Documentation | @*/
/*@ idlc_ast/src/ast.rs | enum FunctionAttribute | @*/
/*@ idlc_ast/src/ast.rs | struct Const | @*/
/*@ idlc_ast/src/ast.rs | enum Param | @*/
/*@ idlc_ast/src/ast.rs | enum ParamTypeIn | @*/
/*@ idlc_ast/src/ast.rs | enum ParamTypeOut | @*/

impl Clone for Struct {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

impl Clone for Interface {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

}
