//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
//@include nameset
//@include ast_structs
//@include ast_all
verus! {

// ---------------------------------------------------------------- specification

/// C09, C10: two parameters of one name
pub open spec fn distinct_params(p: Seq<Param>, k: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < k ==> (#[trigger] name_of(p[i])) != (#[trigger] name_of(p[j]))
}

pub open spec fn name_of(p: Param) -> Seq<char> { match p { Param::In { ident, .. } => ident.ident@, Param::Out { ident, .. } => ident.ident@ } }

pub open spec fn fn_fine(n: InterfaceNode) -> bool { n is Function ==> distinct_params(n->Function_0.params@, n->Function_0.params@.len() as int) }

pub open spec fn iface_fine(i: Interface, k: int) -> bool { forall|j: int| 0 <= j < k ==> fn_fine(#[trigger] i.nodes@[j]) }

pub open spec fn node_fine(d: Seq<Rc<Node>>, j: int) -> bool { match *d[j] { Node::Interface(i) => iface_fine(i, i.nodes@.len() as int), _ => true } }

pub open spec fn all_fine(d: Seq<Rc<Node>>, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] node_fine(d, j) }

// ---------------------------------------------------------------- the code

/*@ idlc_ast/src/ast.rs | fn PartialEq/Ident::eq |
ret r
spec { ensures r == (self.ident@ == other.ident@) }
@*/

pub enum Error { E }

/*@ idlc_ast/src/ast.rs | fn Param::ident |
ret r
spec { ensures r.ident@ == name_of(*self) }
@*/

/*@ idlc_ast_passes/src/functions.rs | struct Functions | @*/
/*@ idlc_ast_passes/src/functions.rs | fn CompilerPass/Functions::run_pass | for_filter_map,rc_as_ref
ret r
sub Self::Output => ()
spec {
    requires !all_fine(ast.nodes@, ast.nodes@.len() as int) ==> may_refuse(),
    ensures all_fine(ast.nodes@, ast.nodes@.len() as int), r is Ok,
}
loop 0 {
    invariant
        it0.seq().len() == ast.nodes@.len(),
        forall|j: int| 0 <= j < ast.nodes@.len() ==> *(#[trigger] it0.seq()[j]) == ast.nodes@[j],
        all_fine(ast.nodes@, it0.index()),
        !all_fine(ast.nodes@, ast.nodes@.len() as int) ==> may_refuse(),
}
body 0 {
    let ghost n = it0.index();
    proof { assert(*it0.seq()[n] == ast.nodes@[n]); }
}
loop 1 {
    invariant
        0 <= n < ast.nodes@.len(), *ast.nodes@[n] == Node::Interface(*interface),
        it1.seq().len() == interface.nodes@.len(),
        forall|j: int| 0 <= j < interface.nodes@.len() ==> *(#[trigger] it1.seq()[j]) == interface.nodes@[j],
        iface_fine(*interface, it1.index()),
        !all_fine(ast.nodes@, ast.nodes@.len() as int) ==> may_refuse(),
}
body 1 {
    let ghost m = it1.index();
    proof { assert(*it1.seq()[m] == interface.nodes@[m]); }
}
loop 2 {
    invariant
        0 <= n < ast.nodes@.len(), *ast.nodes@[n] == Node::Interface(*interface),
        0 <= m < interface.nodes@.len(), interface.nodes@[m] == InterfaceNode::Function(*function),
        it2.seq().len() == function.params@.len(),
        forall|j: int| 0 <= j < function.params@.len() ==> *(#[trigger] it2.seq()[j]) == function.params@[j],
        distinct_params(function.params@, it2.index()),
        forall|x: Seq<char>| #[trigger] params@.contains(x) <==> exists|i: int| 0 <= i < it2.index() && #[trigger] name_of(function.params@[i]) == x,
        !all_fine(ast.nodes@, ast.nodes@.len() as int) ==> may_refuse(),
}
body 2 {
    let ghost k = it2.index();
    let ghost p = function.params@;
    proof {
        assert(*it2.seq()[k] == p[k]);
        assert(params@.contains(name_of(p[k])) ==> !fn_fine(interface.nodes@[m]));
        assert(!fn_fine(interface.nodes@[m]) ==> !node_fine(ast.nodes@, n));
    }
}
@*/

}
fn main() {}
