//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
//@include mirtypes
//@include files_spec
verus! {

pub open spec fn file_of(i: Interface) -> Seq<char> { i.ident.ident@ + ".java"@ }

pub uninterp spec fn emit_text(i: Interface, of: Seq<char>) -> Seq<char>;

pub open spec fn iface_text(i: Interface, of: Seq<char>) -> Seq<char> { emit_text(i, of) }

pub open spec fn banner() -> Seq<char> { "// "@ + generated_by() }

pub open spec fn own(m: Mir) -> Seq<char> { with_extension(file_name_of(m.tag), "java"@) }
pub open spec fn of(m: Mir) -> Seq<char> { file_stem_of(m.tag) }

#[verifier::external_body]
pub fn emit_const(c: &Const) -> (r: String) ensures r@ == const_text(*c), { unimplemented!() }
#[verifier::external_body]
pub fn emit_struct(s: &StructInner) -> (r: String) ensures r@ == struct_text(*s), { unimplemented!() }
#[verifier::external_body]
pub fn emit_interface(i: &Interface, of: &str) -> (r: String) ensures r@ == emit_text(*i, of@), { unimplemented!() }

pub uninterp spec fn file_stem_of(tag: PathBuf) -> Seq<char>;
#[verifier::external_body]
pub fn stem_of_file(tag: &PathBuf) -> (r: &str) ensures r@ == file_stem_of(*tag), { unimplemented!() }

/*@ idlc_codegen_java/src/generator.rs | fn Generator/Generator::generate | inherent,free,fmt,meth_set_extension,meth_clone,meth_to_owned,meth_push_str,meth_pop,meth_into,map_push
ret r
sub Descriptor => Vec<(PathBuf, String)>
sub (MINKIDL_HEADER_COMMENT) => (header_comment())
sub mir.tag.file_name().unwrap().to_str().unwrap() => name_of_file(&mir.tag)
sub mir.tag.file_stem().unwrap().to_str().unwrap() => stem_of_file(&mir.tag)
sub i.file_stem().unwrap().to_str().unwrap() => stem_of_file(i)
sub std::path::PathBuf::from => path_of_str
sub let Node::Include(i) = node.as_ref() => let Node::Include(i) = &**node
sub match node.as_ref() => match &**node
sub name == base.to_str().unwrap() => same(&name, &base)
sub interfaces.into_iter().filter(|(_, content)| content != prologue).collect() => interfaces.other_than(prologue)
spec {
    ensures
        only_expected(r@, mir.nodes@, own(*mir)),
        banner_first(r@, banner()),
        own_written(r@, mir.nodes@, own(*mir), of(*mir)),
        apart(mir.nodes@, mir.nodes@.len() as int) ==> interfaces_written(r@, mir.nodes@, own(*mir), of(*mir)),
}
before 1 {
    let ghost head = prologue@;
    proof {
        assert(head.take(banner().len() as int) =~= banner());
        let m = interfaces@;
        assert(m[own(*mir)].take(head.len() as int) =~= head);
        assert forall|f: Seq<char>| #[trigger] m.dom().contains(f) implies f == own(*mir) by {}
    }
}
loop 1 {
    invariant
        input_name@ == of(*mir),
        prologue@ == head,
        starts(head, banner()),
        path_text(base) == own(*mir),
        it1.seq().len() == mir.nodes@.len(),
        forall|j: int| 0 <= j < mir.nodes@.len() ==> *(#[trigger] it1.seq()[j]) == mir.nodes@[j],
        named(interfaces@, mir.nodes@, it1.index(), own(*mir)),
        bannered(interfaces@, head),
        own_complete(interfaces@, mir.nodes@, it1.index(), own(*mir), of(*mir), head),
        apart(mir.nodes@, it1.index()) ==> each_complete(interfaces@, mir.nodes@, it1.index(), own(*mir), of(*mir), head),
}
body 1 {
    let ghost k = it1.index();
    let ghost was = interfaces@;
    proof {
        assert(*it1.seq()[k] == mir.nodes@[k]);
        step(mir.nodes@, k);
        holds_self();
        assert(apart(mir.nodes@, k + 1) ==> apart(mir.nodes@, k));
    }
}
end 1 {
    proof {
        added(was, interfaces@, mir.nodes@, k, own(*mir), of(*mir), head);
    }
}
after 1 {
    proof {
        let m = interfaces@;
        let n = mir.nodes@;
        let k = n.len() as int;
        assert forall|e: Seq<char>, d: Seq<(PathBuf, String)>| #[trigger] lists(d, m.insert(own(*mir), m[own(*mir)] + e), head)
            implies only_expected(d, n, own(*mir)) && banner_first(d, banner()) && own_written(d, n, own(*mir), of(*mir))
                && (apart(n, k) ==> interfaces_written(d, n, own(*mir), of(*mir))) by {
            let last = m.insert(own(*mir), m[own(*mir)] + e);
            longer(m[own(*mir)], e, own_parts(n, k, own(*mir), of(*mir)), head);
            concluded(d, last, n, own(*mir), of(*mir), head, banner());
        }
    }
}
@*/

}
fn main() {}
