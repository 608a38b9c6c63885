// The objects a struct holds, as everything behind the MIR sees them: StructInner::object_paths.
use vstd::multiset::Multiset;
verus! {

/// an object of a struct: how to reach it from the struct, and the interface it is declared with
pub type Leaf = (Seq<char>, Option<Seq<char>>);

/// the path of one element of a field: `prefix name`, `prefix name[i]` where there are several
pub open spec fn at_path(f: StructField, i: int, prefix: Seq<char>) -> Seq<char> {
    if f.val.1@ == 1 { prefix + f.ident.ident@ } else { prefix + f.ident.ident@ + "["@ + numeral(i) + "]"@ }
}

/// the objects of one element, at every depth
pub open spec fn tleaves(t: Type, path: Seq<char>) -> Multiset<Leaf>
    decreases t
{
    match t {
        Type::Interface(n) => Multiset::singleton((path, match n { Some(s) => Some(s@), None => None })),
        Type::Struct(s) => match s {
            Struct::Small(i) => sleaves(i, i.fields@.len() as int, path + "."@),
            Struct::Big(i) => sleaves(i, i.fields@.len() as int, path + "."@),
        },
        _ => Multiset::empty(),
    }
}

/// the objects of the first n elements of a field
pub open spec fn eleaves(f: StructField, n: int, prefix: Seq<char>) -> Multiset<Leaf>
    decreases f, n
{
    if n <= 0 { Multiset::empty() } else { eleaves(f, n - 1, prefix).add(tleaves(f.val.0, at_path(f, n - 1, prefix))) }
}

/// the objects of the first k fields
pub open spec fn sleaves(s: StructInner, k: int, prefix: Seq<char>) -> Multiset<Leaf>
    decreases s, k
{
    if k <= 0 || k > s.fields@.len() { Multiset::empty() } else { sleaves(s, k - 1, prefix).add(eleaves(s.fields[k - 1], s.fields[k - 1].val.1@ as int, prefix)) }
}

pub open spec fn leaves(s: StructInner, prefix: Seq<char>) -> Multiset<Leaf> { sleaves(s, s.fields@.len() as int, prefix) }

pub open spec fn leaf_of(x: (String, Option<&str>)) -> Leaf { (x.0@, match x.1 { Some(s) => Some(s@), None => None }) }

pub open spec fn leaves_listed(o: Seq<(String, Option<&str>)>) -> Multiset<Leaf>
    decreases o.len()
{
    if o.len() == 0 { Multiset::empty() } else { leaves_listed(o.drop_last()).insert(leaf_of(o.last())) }
}

/*@ idlc_mir/src/mir.rs | fn StructInner::object_paths | fmt,map_list,extend
ret r
sub VecDeque::from([(String::new(), self)]) => deque_of((String::new(), self))
sub let mut verif_out = Vec::new() => let mut verif_out: Vec<String> = Vec::new()
spec {
    requires wf_struct(*self, self.fields@.len() as int),
    ensures
        r@.len() == objs(*self),
        leaves_listed(r@) == leaves(*self, Seq::empty()),
}
start {
    let ghost total = leaves(*self, Seq::empty());
}
before 0 {
    proof {
        reveal_with_fuel(waiting, 2);
        reveal_with_fuel(nodes, 2);
        assert(queue@[0].0@ =~= Seq::<char>::empty());
        assert(queue@.drop_first() =~= Seq::empty());
        assert(leaves_listed(objects@) =~= Multiset::empty());
        assert(leaves_listed(objects@).add(waiting(queue@)) =~= total);
    }
}
loop 0 {
    invariant
        forall|j: int| 0 <= j < queue@.len() ==> wf_struct(*(#[trigger] queue@[j]).1, queue@[j].1.fields@.len() as int),
        leaves_listed(objects@).add(waiting(queue@)) == total,
    ensures
        queue@.len() == 0,
    decreases nodes(queue@)
}
body 0 {
    let ghost base = leaves_listed(objects@).add(waiting(queue@));
    let ghost nbase = nodes(queue@);
    let ghost all = sleaves(*node, node.fields@.len() as int, prefix@);
    let ghost nall = snodes(*node, node.fields@.len() as int);
    proof {
        assert(base.add(all) =~= total);
        assert(base.add(Multiset::empty()) =~= base);
    }
}
after 0 {
    proof {
        assert(leaves_listed(objects@) =~= total);
        leaves_listed_len(objects@);
        sleaves_len(*self, self.fields@.len() as int, Seq::empty());
    }
}
loop 1 {
    invariant
        it1.seq().len() == node.fields@.len(),
        forall|j: int| 0 <= j < node.fields@.len() ==> *(#[trigger] it1.seq()[j]) == node.fields@[j],
        wf_struct(*node, node.fields@.len() as int),
        forall|j: int| 0 <= j < queue@.len() ==> wf_struct(*(#[trigger] queue@[j]).1, queue@[j].1.fields@.len() as int),
        leaves_listed(objects@).add(waiting(queue@)) == base.add(sleaves(*node, it1.index(), prefix@)),
        nodes(queue@) <= nbase + snodes(*node, it1.index()),
}
body 1 {
    let ghost k = it1.index();
    let ghost mid = leaves_listed(objects@).add(waiting(queue@));
    let ghost nmid = nodes(queue@);
    proof {
        assert(*it1.seq()[k] == node.fields@[k]);
        wf_field(*node, node.fields@.len() as int, k);
        assert(mid.add(eleaves(*field, field.val.1@ as int, prefix@)) =~= base.add(sleaves(*node, k + 1, prefix@)));
        assert(mid.add(Multiset::empty()) =~= mid);
        eleaves_len(*field, field.val.1@ as int, prefix@);
    }
}
loop 2 {
    invariant
        *count == field.val.1,
        verif_out@.len() == it2.index(),
        forall|j: int| 0 <= j < it2.index() ==> (#[trigger] verif_out@[j])@ == at_path(*field, j, prefix@),
}
loop 3 {
    invariant
        field.val.0 == Type::Struct(*s), wf_type(field.val.0),
        it3.seq().len() == field.val.1@,
        forall|j: int| 0 <= j < field.val.1@ ==> (#[trigger] it3.seq()[j])@ == at_path(*field, j, prefix@),
        forall|j: int| 0 <= j < queue@.len() ==> wf_struct(*(#[trigger] queue@[j]).1, queue@[j].1.fields@.len() as int),
        leaves_listed(objects@).add(waiting(queue@)) == mid.add(eleaves(*field, it3.index(), prefix@)),
        nodes(queue@) <= nmid + tnodes(field.val.0) * it3.index(),
}
body 3 {
    proof { assert(it3.seq()[it3.index()]@ == at_path(*field, it3.index(), prefix@)); }
    let ghost q3 = queue@;
    let ghost j3 = it3.index();
}
end 3 {
    proof {
        let x = queue@.last();
        assert(queue@ =~= q3.push(x));
        waiting_push(q3, x);
        assert(x.0@ =~= at_path(*field, j3, prefix@) + "."@);
        assert(leaves(*x.1, x.0@) == tleaves(field.val.0, at_path(*field, j3, prefix@)));
        let t = tleaves(field.val.0, at_path(*field, j3, prefix@));
        add_assoc(leaves_listed(objects@), waiting(q3), t);
        add_assoc(mid, eleaves(*field, j3, prefix@), t);
        assert(eleaves(*field, j3 + 1, prefix@) == eleaves(*field, j3, prefix@).add(t));
        assert(tnodes(field.val.0) * j3 + tnodes(field.val.0) == tnodes(field.val.0) * (j3 + 1)) by (nonlinear_arith);
    }
}
loop 4 {
    invariant
        field.val.0 == Type::Interface(*interface),
        it4.seq().len() == field.val.1@,
        forall|j: int| 0 <= j < field.val.1@ ==> (#[trigger] it4.seq()[j])@ == at_path(*field, j, prefix@),
        leaves_listed(objects@).add(waiting(queue@)) == mid.add(eleaves(*field, it4.index(), prefix@)),
        nodes(queue@) <= nmid,
}
body 4 {
    proof { assert(it4.seq()[it4.index()]@ == at_path(*field, it4.index(), prefix@)); }
    let ghost o4 = objects@;
    let ghost j4 = it4.index();
}
end 4 {
    proof {
        let x = objects@.last();
        assert(objects@ =~= o4.push(x));
        leaves_listed_push(o4, x);
        assert(leaf_of(x).0 == at_path(*field, j4, prefix@));
        let t = tleaves(field.val.0, at_path(*field, j4, prefix@));
        assert(t == Multiset::singleton(leaf_of(x)));
        assert(leaves_listed(objects@).add(waiting(queue@)) =~= leaves_listed(o4).add(waiting(queue@)).add(t));
        add_assoc(mid, eleaves(*field, j4, prefix@), t);
        assert(eleaves(*field, j4 + 1, prefix@) == eleaves(*field, j4, prefix@).add(t));
    }
}
@*/

}
