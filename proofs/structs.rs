// The functions of the MIR about structs and parameters that everything behind them uses.
verus! {

/*@ idlc_mir/src/mir.rs | fn Primitive::size |
ret r
spec { ensures r == psz(self) }
@*/

/*@ idlc_mir/src/mir.rs | fn AsRef/Struct::as_ref |
ret r
spec { ensures *r == inner_of(*self) }
@*/

/*@ idlc_mir/src/mir.rs | fn StructField::size | usize_from
ret r
spec {
    requires !(self.val.0 is UntypedBuffer), tsize(self.val.0) * (self.val.1@ as nat) <= usize::MAX,
        wf_type(self.val.0),
    ensures r == tsize(self.val.0) * (self.val.1@ as nat)
    decreases self
}
start {
    proof {
        let c = self.val.1@ as int;
        assert(c >= 1);
        assert(tsize(self.val.0) * c <= usize::MAX && c >= 1 ==> tsize(self.val.0) <= usize::MAX) by (nonlinear_arith);
    }
}
@*/

/*@ idlc_mir/src/mir.rs | fn StructInner::size | fold
ret r
sub let mut acc = 0 => let mut acc: usize = 0
spec {
    requires wf_struct(*self, self.fields@.len() as int), size_of_struct(*self) <= usize::MAX,
    ensures r == size_of_struct(*self)
    decreases self
}
loop 0 {
    invariant
        it0.seq().len() == self.fields@.len(),
        forall|j: int| 0 <= j < self.fields@.len() ==> *(#[trigger] it0.seq()[j]) == self.fields@[j],
        wf_struct(*self, self.fields@.len() as int), size_of_struct(*self) <= usize::MAX,
        acc == ssize(*self, it0.index()),
}
body 0 {
    proof {
        let k = it0.index();
        assert(*it0.seq()[k] == self.fields@[k]);
        assert(decreases_to!(self => self.fields@[k]));
        wf_field(*self, self.fields@.len() as int, k);
        ssize_mono(*self, k + 1, self.fields@.len() as int);
    }
}
@*/

pub proof fn ssize_mono(s: StructInner, j: int, k: int)
    requires 0 <= j <= k <= s.fields@.len(),
    ensures ssize(s, j) <= ssize(s, k),
    decreases k
{
    if j < k { ssize_mono(s, j, k - 1); }
}

pub proof fn sobjs_mono(s: StructInner, j: int, k: int)
    requires 0 <= j <= k <= s.fields@.len(),
    ensures sobjs(s, j) <= sobjs(s, k),
    decreases k
{
    if j < k { sobjs_mono(s, j, k - 1); }
}

pub open spec fn cap(n: nat) -> nat { if n > usize::MAX { usize::MAX as nat } else { n } }

/*@ idlc_mir/src/mir.rs | fn StructInner::object_count | fold,usize_from
ret r
sub let mut acc = 0 => let mut acc: usize = 0
spec {
    ensures r == cap(objs(*self))
    decreases self
}
loop 0 {
    invariant
        it0.seq().len() == self.fields@.len(),
        forall|j: int| 0 <= j < self.fields@.len() ==> *(#[trigger] it0.seq()[j]) == self.fields@[j],
        acc == cap(sobjs(*self, it0.index())),
}
body 0 {
    let ghost k = it0.index();
    proof {
        assert(*it0.seq()[k] == self.fields@[k]);
        assert(decreases_to!(self => self.fields@[k]));
        let t = tobjs(self.fields@[k].val.0) as int;
        let c = self.fields@[k].val.1@ as int;
        assert(t > usize::MAX && c >= 1 ==> usize::MAX * c >= usize::MAX && t * c > usize::MAX) by (nonlinear_arith);
    }
}
@*/

/// an element with objects makes the struct one with objects: a count is at least one
proof fn some_objs(s: StructInner, j: int)
    requires 0 <= j < s.fields@.len(), tobjs(s.fields[j].val.0) > 0,
    ensures objs(s) > 0,
{
    sobjs_mono(s, j + 1, s.fields@.len() as int);
    let t = tobjs(s.fields[j].val.0) as int;
    let c = s.fields[j].val.1@ as int;
    assert(t > 0 && c >= 1 ==> t * c > 0) by (nonlinear_arith);
}

/*@ idlc_mir/src/mir.rs | fn StructInner::contains_interfaces | any
ret r
spec {
    requires wf_struct(*self, self.fields@.len() as int),
    ensures r == (objs(*self) > 0)
    decreases self
}
loop 0 {
    invariant_except_break
        !verif_any,
        sobjs(*self, it0.index()) == 0,
    invariant
        it0.seq().len() == self.fields@.len(),
        forall|j: int| 0 <= j < self.fields@.len() ==> *(#[trigger] it0.seq()[j]) == self.fields@[j],
        wf_struct(*self, self.fields@.len() as int),
    ensures
        verif_any == (objs(*self) > 0),
}
body 0 {
    proof {
        let k = it0.index();
        assert(*it0.seq()[k] == self.fields@[k]);
        assert(decreases_to!(self => self.fields@[k]));
        wf_field(*self, self.fields@.len() as int, k);
        let t = self.fields@[k].val.0;
        assert(wf_type(t));
        if tobjs(t) > 0 { some_objs(*self, k); } else { assert(tobjs(t) * (self.fields@[k].val.1@ as nat) == 0) by (nonlinear_arith) requires tobjs(t) == 0; }
    }
}
@*/

/*@ idlc_mir/src/mir.rs | const Struct::BUNDLED_SIZE_MAX | @*/

/*@ idlc_mir/src/mir.rs | fn Struct::new |
ret r
spec {
    requires wf_struct(inner, inner.fields@.len() as int), size == size_of_struct(inner),
    ensures inner_of(r) == inner, class_ok(r), wf_type(Type::Struct(r)),
}
@*/

/*@ idlc_mir/src/mir.rs | fn From/Struct::from |
ret r
spec {
    requires wf_struct(value, value.fields@.len() as int), size_of_struct(value) <= usize::MAX,
    ensures inner_of(r) == value, class_ok(r), wf_type(Type::Struct(r)),
}
@*/

// ---------------------------------------------------------------- parameters

/*@ idlc_mir/src/mir.rs | fn Param::r#type |
ret r
spec { ensures *r == p_ty(*self) }
@*/
/*@ idlc_mir/src/mir.rs | fn Param::ident |
ret r
spec { ensures *r == p_ident(*self) }
@*/
/*@ idlc_mir/src/mir.rs | fn Param::is_input |
ret r
spec { ensures r == (*self is In) }
@*/
/*@ idlc_mir/src/mir.rs | fn Param::is_output |
ret r
spec { ensures r == (*self is Out) }
@*/
/*@ idlc_mir/src/mir.rs | fn Param::is_array |
ret r
spec { ensures r == p_arr(*self) }
@*/
/*@ idlc_mir/src/mir.rs | fn Param::is_primitive |
ret r
spec { ensures r == (p_ty(*self) is Primitive) }
@*/
/*@ idlc_mir/src/mir.rs | fn Param::is_primitive_value |
ret r
spec { ensures r == (p_ty(*self) is Primitive && !p_arr(*self)) }
@*/
/*@ idlc_mir/src/mir.rs | fn Param::is_small_struct |
ret r
spec { ensures r == (p_ty(*self) is Struct && p_ty(*self)->Struct_0 is Small) }
@*/
/*@ idlc_mir/src/mir.rs | fn Param::is_small_struct_value |
ret r
spec { ensures r == (p_ty(*self) is Struct && p_ty(*self)->Struct_0 is Small && !p_arr(*self)) }
@*/

}
