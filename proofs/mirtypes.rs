verus! {

/*@ idlc_ast/src/ast.rs | type Count | @*/
/*@ idlc_ast/src/ast.rs | enum Primitive | as_ast,derive_Clone,derive_Copy @*/
/*@ idlc_ast/src/ast.rs | enum Type | as_ast @*/
/*@ idlc_ast/src/ast.rs | struct StructField | as_ast @*/
/*@ idlc_ast/src/ast.rs | struct Struct | as_ast @*/
/*@ idlc_ast/src/ast.rs | enum ParamTypeIn | as_ast @*/
/*@ idlc_ast/src/ast.rs | enum ParamTypeOut | as_ast @*/
/*@ idlc_ast/src/ast.rs | enum Param | as_ast @*/
/*@ idlc_ast/src/ast.rs | struct Const | as_ast @*/
/*@ idlc_ast/src/ast.rs | struct Documentation | as_ast @*/
/*@ idlc_ast/src/ast.rs | enum FunctionAttribute | as_ast,derive_Clone,derive_Copy @*/
/*@ idlc_ast/src/ast.rs | struct Function | as_ast @*/
/*@ idlc_ast/src/ast.rs | enum InterfaceNode | as_ast @*/
/*@ idlc_ast/src/ast.rs | struct Interface | as_ast @*/
/*@ idlc_ast/src/ast.rs | enum Node | as_ast,std_tail @*/

/*@ idlc_mir/src/mir.rs | enum Primitive | derive_Clone,derive_Copy @*/
/*@ idlc_mir/src/mir.rs | struct Const | @*/
/*@ idlc_mir/src/mir.rs | enum Type | @*/
/*@ idlc_mir/src/mir.rs | struct StructField | @*/
/*@ idlc_mir/src/mir.rs | enum Struct | @*/
/*@ idlc_mir/src/mir.rs | struct StructInner | @*/
/*@ idlc_mir/src/mir.rs | enum ParamTypeIn | @*/
/*@ idlc_mir/src/mir.rs | enum ParamTypeOut | @*/
/*@ idlc_mir/src/mir.rs | enum Param | @*/
/*@ idlc_mir/src/mir.rs | struct Function | ast_prefix @*/
/*@ idlc_mir/src/mir.rs | struct Error | @*/
/*@ idlc_mir/src/mir.rs | enum InterfaceNode | @*/
/*@ idlc_mir/src/mir.rs | struct Interface | @*/

}
