//@include common
//@include ident
use std::num::NonZeroU16;
use std::path::PathBuf;
//@include mirtypes
//@include files_spec
verus! {

pub open spec fn file_of(i: Interface) -> Seq<char> { lower(i.ident.ident@) + ".rs"@ }

pub uninterp spec fn emit_text(i: Interface) -> Seq<char>;

pub open spec fn iface_text(i: Interface, of: Seq<char>) -> Seq<char> { emit_text(i) }

/// what is printed does not depend on the input's name
pub open spec fn of() -> Seq<char> { Seq::empty() }

pub open spec fn banner() -> Seq<char> { "// "@ + generated_by() }

pub open spec fn own(m: Mir) -> Seq<char> { with_extension(lower(file_name_of(m.tag)), "rs"@) }

#[verifier::external_body]
pub fn emit_const(c: &Const) -> (r: String) ensures r@ == const_text(*c), { unimplemented!() }
#[verifier::external_body]
pub fn emit_struct(s: &StructInner) -> (r: String) ensures r@ == struct_text(*s), { unimplemented!() }
#[verifier::external_body]
pub fn emit(i: &Interface) -> (r: String) ensures r@ == emit_text(*i), { unimplemented!() }

/*@ idlc_codegen_rust/src/generator.rs | fn Generator/Generator::generate | inherent,free,fmt,meth_to_lowercase,meth_set_extension,meth_clone,meth_to_owned,meth_push_str,meth_into,for_into_all,map_push
ret r
sub Descriptor => Vec<(PathBuf, String)>
sub mir.tag.file_name().unwrap().to_str().unwrap() => name_of_file(&mir.tag)
sub std::path::PathBuf::from => path_of
sub (MINKIDL_HEADER_COMMENT) => (header_comment())
sub node.as_ref() => &**node
sub name == base.to_str().unwrap() => same(&name, &base)
sub interfaces.into_iter().filter(|(_, content)| content != prologue).collect() => interfaces.other_than(prologue)
spec {
    requires !apart(mir.nodes@, mir.nodes@.len() as int) ==> may_refuse(),
    ensures
        apart(mir.nodes@, mir.nodes@.len() as int),
        only_expected(r@, mir.nodes@, own(*mir)),
        banner_first(r@, banner()),
        own_written(r@, mir.nodes@, own(*mir), of()),
        interfaces_written(r@, mir.nodes@, own(*mir), of()),
}
before 0 {
    let ghost head = prologue@;
    proof { assert(head.take(banner().len() as int) =~= banner()); }
}
loop 0 {
    invariant
        prologue@ == head,
        starts(head, banner()),
        path_text(base) == own(*mir),
        it0.seq().len() == mir.nodes@.len(),
        forall|j: int| 0 <= j < mir.nodes@.len() ==> *(#[trigger] it0.seq()[j]) == mir.nodes@[j],
        named(interfaces@, mir.nodes@, it0.index(), own(*mir)),
        bannered(interfaces@, head),
        own_complete(interfaces@, mir.nodes@, it0.index(), own(*mir), of(), head),
        each_complete(interfaces@, mir.nodes@, it0.index(), own(*mir), of(), head),
        apart(mir.nodes@, it0.index()),
        forall|f: Seq<char>| #[trigger] modules@.contains(f) <==> has_file(mir.nodes@, it0.index(), f),
        !apart(mir.nodes@, mir.nodes@.len() as int) ==> may_refuse(),
}
body 0 {
    let ghost k = it0.index();
    let ghost was = interfaces@;
    proof {
        assert(*it0.seq()[k] == mir.nodes@[k]);
        step(mir.nodes@, k);
        holds_self();
    }
}
end 0 {
    proof {
        let now = interfaces@;
        added(was, now, mir.nodes@, k, own(*mir), of(), head);
    }
}
loop 1 {
    decreases verif_iter@.len(),
}
after 0 {
    proof {
        let m = interfaces@;
        assert forall|d: Seq<(PathBuf, String)>| #[trigger] lists(d, m, head)
            implies only_expected(d, mir.nodes@, own(*mir)) && banner_first(d, banner()) && own_written(d, mir.nodes@, own(*mir), of()) && interfaces_written(d, mir.nodes@, own(*mir), of()) by {
            concluded(d, m, mir.nodes@, own(*mir), of(), head, banner());
        }
    }
}
@*/

}
fn main() {}
