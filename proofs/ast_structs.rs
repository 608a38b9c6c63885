// the structs of the AST as the parser builds them
verus! {

/*@ idlc_ast/src/ast.rs | enum Primitive | derive_Clone,derive_Copy @*/
/*@ idlc_ast/src/ast.rs | enum Type | @*/
/*@ idlc_ast/src/ast.rs | type Count | @*/
/*@ idlc_ast/src/ast.rs | struct StructField | @*/
/*@ idlc_ast/src/ast.rs | struct Struct | @*/

/*@ idlc_ast/src/ast.rs | fn StructField::r#type |
ret r
spec { ensures *r == self.val }
@*/

/// the order names declared structs, each of them after the structs it is made of; what the grammar gives: at least one field, no buffers
pub open spec fn ordered(s: Map<Seq<char>, Struct>, order: Seq<String>) -> bool {
    forall|k: int| 0 <= k < order.len() ==> {
        &&& s.dom().contains(#[trigger] order[k]@)
        &&& s[order[k]@].fields@.len() > 0
        &&& forall|i: int| 0 <= i < s[order[k]@].fields@.len() ==> {
            let ty = #[trigger] s[order[k]@].fields@[i].val.0;
            &&& !(ty is UntypedBuffer)
            &&& ty is Custom ==> exists|j: int| 0 <= j < k && #[trigger] order[j]@ == ty->Custom_0.ident@
        }
    }
}

}
