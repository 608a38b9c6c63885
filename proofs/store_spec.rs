// the declarations of all files, by name
verus! {

pub type Structs = Map<Seq<char>, Struct>;
pub type Ifaces = Map<Seq<char>, Interface>;

pub open spec fn bases_of(s: Ifaces) -> Bases { s.map_values(|i: Interface| match i.base { Some(b) => Some(b.ident@), None => None }) }

/// every symbol stands under its name; what the grammar gives: a struct has fields, none of them a buffer
pub open spec fn store_ok(s: Structs, f: Ifaces) -> bool {
    &&& forall|n: Seq<char>| #[trigger] s.dom().contains(n) ==> s[n].ident.ident@ == n && s[n].fields.len() > 0
            && forall|i: int| 0 <= i < s[n].fields.len() ==> !((#[trigger] s[n].fields@[i]).val.0 is UntypedBuffer)
    &&& forall|n: Seq<char>| #[trigger] f.dom().contains(n) ==> f[n].ident.ident@ == n
}

pub open spec fn ast_in_store(n: Seq<Rc<Node>>, s: Structs, f: Ifaces) -> bool {
    &&& forall|j: int| 0 <= j < n.len() && (#[trigger] *n[j]) is Struct ==> {
        let x = (*n[j])->Struct_0;
        s.dom().contains(x.ident.ident@) && s[x.ident.ident@] == x
    }
    &&& forall|j: int| 0 <= j < n.len() && (#[trigger] *n[j]) is Interface ==> {
        let x = (*n[j])->Interface_0;
        f.dom().contains(x.ident.ident@) && f[x.ident.ident@] == x
    }
}

}
