// What a call looks like on the wire, in terms of the parameters of a method: the Mink rules of C02 and C03.
verus! {

pub open spec fn p_ty(p: Param) -> Type {
    match p {
        Param::In { raw_type, .. } => match raw_type { ParamTypeIn::Array(t, _) => t, ParamTypeIn::Value(t) => t },
        Param::Out { raw_type, .. } => match raw_type { ParamTypeOut::Array(t, _) => t, ParamTypeOut::Reference(t) => t },
    }
}

pub open spec fn p_arr(p: Param) -> bool {
    match p { Param::In { raw_type, .. } => raw_type is Array, Param::Out { raw_type, .. } => raw_type is Array }
}

pub open spec fn p_cnt(p: Param) -> Option<Count> {
    match p {
        Param::In { raw_type, .. } => match raw_type { ParamTypeIn::Array(_, c) => c, ParamTypeIn::Value(_) => None },
        Param::Out { raw_type, .. } => match raw_type { ParamTypeOut::Array(_, c) => c, ParamTypeOut::Reference(_) => None },
    }
}

pub open spec fn p_ident(p: Param) -> Ident {
    match p { Param::In { ident, .. } => ident, Param::Out { ident, .. } => ident }
}

pub open spec fn inner_of(s: Struct) -> StructInner {
    match s { Struct::Small(i) => i, Struct::Big(i) => i }
}

pub open spec fn psz(p: Primitive) -> nat {
    match p {
        Primitive::Uint8 => 1, Primitive::Int8 => 1, Primitive::Uint16 => 2, Primitive::Int16 => 2,
        Primitive::Uint32 => 4, Primitive::Int32 => 4, Primitive::Float32 => 4,
        Primitive::Uint64 => 8, Primitive::Int64 => 8, Primitive::Float64 => 8,
    }
}

/// bytes of one element; an object slot is a pair of pointers
pub open spec fn tsize(t: Type) -> nat
    decreases t
{
    match t {
        Type::UntypedBuffer => 0,
        Type::Primitive(p) => psz(p),
        Type::Struct(s) => match s { Struct::Small(i) => ssize(i, i.fields@.len() as int), Struct::Big(i) => ssize(i, i.fields@.len() as int) },
        Type::Interface(_) => 16,
    }
}

/// the sizes of the first k fields, elements included
pub open spec fn ssize(s: StructInner, k: int) -> nat
    decreases s, k
{
    if k <= 0 || k > s.fields@.len() { 0 } else { ssize(s, k - 1) + tsize(s.fields[k - 1].val.0) * (s.fields[k - 1].val.1@ as nat) }
}

pub open spec fn size_of_struct(s: StructInner) -> nat { ssize(s, s.fields@.len() as int) }

/// objects in one element
pub open spec fn tobjs(t: Type) -> nat
    decreases t
{
    match t {
        Type::UntypedBuffer => 0,
        Type::Primitive(p) => 0,
        Type::Struct(s) => match s { Struct::Small(i) => sobjs(i, i.fields@.len() as int), Struct::Big(i) => sobjs(i, i.fields@.len() as int) },
        Type::Interface(_) => 1,
    }
}

/// objects in the first k fields: every element of every object field, at every depth
pub open spec fn sobjs(s: StructInner, k: int) -> nat
    decreases s, k
{
    if k <= 0 || k > s.fields@.len() { 0 } else { sobjs(s, k - 1) + tobjs(s.fields[k - 1].val.0) * (s.fields[k - 1].val.1@ as nat) }
}

pub open spec fn objs(s: StructInner) -> nat { sobjs(s, s.fields@.len() as int) }

/// a struct is small, and so a member of a bundle, iff it has at most 16 bytes and holds no object
pub open spec fn class_ok(s: Struct) -> bool {
    (s is Small) == (size_of_struct(inner_of(s)) <= 16 && objs(inner_of(s)) == 0)
}

pub open spec fn wf_type(t: Type) -> bool
    decreases t
{
    match t {
        Type::Struct(s) => class_ok(s) && match s { Struct::Small(i) => wf_struct(i, i.fields@.len() as int), Struct::Big(i) => wf_struct(i, i.fields@.len() as int) },
        _ => true,
    }
}

/// every struct inside is classified by the rule, no buffers among the fields
pub open spec fn wf_struct(s: StructInner, k: int) -> bool
    decreases s, k
{
    k <= 0 || k > s.fields@.len() || (wf_struct(s, k - 1) && wf_type(s.fields[k - 1].val.0) && !(s.fields[k - 1].val.0 is UntypedBuffer))
}

pub proof fn wf_field(s: StructInner, k: int, j: int)
    requires wf_struct(s, k), 0 <= j < k <= s.fields@.len(),
    ensures wf_type(s.fields[j].val.0), !(s.fields[j].val.0 is UntypedBuffer),
    decreases k
{
    if j < k - 1 { wf_field(s, k - 1, j); }
}

/// fixed-size data of at most 16 bytes
pub open spec fn p_small(p: Param) -> bool {
    !p_arr(p) && match p_ty(p) { Type::Primitive(_) => true, Type::Struct(s) => s is Small, _ => false }
}

pub open spec fn p_obj(p: Param) -> bool { p_ty(p) is Interface }

/// a discrete buffer
pub open spec fn p_buf(p: Param) -> bool { !p_obj(p) && !p_small(p) }

/// objects a parameter contributes
pub open spec fn p_objs(p: Param) -> nat {
    if p_obj(p) { if p_arr(p) { match p_cnt(p) { Some(c) => c@ as nat, None => 0 } } else { 1 } }
    else if p_arr(p) { 0 }
    else { tobjs(p_ty(p)) }
}

/// of the first k parameters in one direction: small ones, discrete buffers, objects
pub open spec fn n_small(p: Seq<Param>, dir: bool, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { n_small(p, dir, k - 1) + (if (p[k - 1] is In) == dir && p_small(p[k - 1]) { 1nat } else { 0nat }) }
}

pub open spec fn n_buf(p: Seq<Param>, dir: bool, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { n_buf(p, dir, k - 1) + (if (p[k - 1] is In) == dir && p_buf(p[k - 1]) { 1nat } else { 0nat }) }
}

pub open spec fn n_obj(p: Seq<Param>, dir: bool, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { n_obj(p, dir, k - 1) + (if (p[k - 1] is In) == dir { p_objs(p[k - 1]) } else { 0nat }) }
}

/// arguments of one class: all small parameters of a direction share a buffer (a single one has a buffer of its own: the same count)
pub open spec fn buffers(p: Seq<Param>, dir: bool) -> nat {
    n_buf(p, dir, p.len() as int) + (if n_small(p, dir, p.len() as int) > 0 { 1nat } else { 0nat })
}

pub open spec fn objects(p: Seq<Param>, dir: bool) -> nat { n_obj(p, dir, p.len() as int) }

/// the method fits the counts word: four bits for each class
pub open spec fn fits(p: Seq<Param>) -> bool {
    buffers(p, true) <= 15 && objects(p, true) <= 15 && buffers(p, false) <= 15 && objects(p, false) <= 15
}

pub proof fn n_mono(p: Seq<Param>, dir: bool, j: int, k: int)
    requires 0 <= j <= k <= p.len(),
    ensures n_small(p, dir, j) <= n_small(p, dir, k), n_buf(p, dir, j) <= n_buf(p, dir, k), n_obj(p, dir, j) <= n_obj(p, dir, k),
        n_small(p, dir, k) + n_buf(p, dir, k) <= k,
    decreases k
{
    if j < k { n_mono(p, dir, j, k - 1); } else if k > 0 { n_mono(p, dir, k - 1, k - 1); }
}

/// every parameter's structs are classified
pub open spec fn wf_params(p: Seq<Param>) -> bool {
    forall|j: int| 0 <= j < p.len() ==> wf_type(#[trigger] p_ty(p[j]))
}

}
