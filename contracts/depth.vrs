// C14: the nested lists say exactly what the flat sequence of (depth, kind, item) said.
use std::mem;
//@use nonempty mem
//@type src/parsing/depth.rs DepthList
//@end
//@type src/parsing/depth.rs DepthItem
//@end
//@type src/parsing/depth.rs DepthStack
//@end

// -- what nested lists mean --
pub open spec fn flat_item<L, T>(x: DepthItem<L, T>, d: nat, l: L) -> Seq<(nat, L, T)>
    decreases x,
{
    match x { DepthItem::Item(t) => seq![(d, l, t)], DepthItem::List(k, v) => flat_list(v@, d + 1, k) }
}
pub open spec fn flat_list<L, T>(v: Seq<DepthItem<L, T>>, d: nat, l: L) -> Seq<(nat, L, T)>
    decreases v,
{
    if v.len() == 0 { Seq::empty() } else { flat_list(v.drop_last(), d, l) + flat_item(v.last(), d, l) }
}
pub open spec fn flat_trees<L, T>(v: Seq<(L, Vec<DepthItem<L, T>>)>) -> Seq<(nat, L, T)>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { flat_trees(v.drop_last()) + flat_list(v.last().1@, 0, v.last().0) }
}
// open lists, the k-th one at depth k
pub open spec fn flat_open<L, T>(v: Seq<(L, Vec<DepthItem<L, T>>)>) -> Seq<(nat, L, T)>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { flat_open(v.drop_last()) + flat_list(v.last().1@, (v.len() - 1) as nat, v.last().0) }
}
// -- neighbours share a list whenever they may --
pub open spec fn ends_with_list<L, T>(v: Seq<DepthItem<L, T>>, l: L) -> bool {
    v.len() > 0 && match v.last() { DepthItem::List(k, _) => k == l, _ => false }
}
// no empty list, and no two neighbouring lists of one kind
pub open spec fn tight_item<L, T>(x: DepthItem<L, T>) -> bool
    decreases x,
{
    match x { DepthItem::Item(_) => true, DepthItem::List(_, v) => v@.len() > 0 && tight(v@) }
}
pub open spec fn tight<L, T>(v: Seq<DepthItem<L, T>>) -> bool
    decreases v,
{
    v.len() == 0 || (tight(v.drop_last()) && tight_item(v.last()) && match v.last() { DepthItem::List(k, _) => !ends_with_list(v.drop_last(), k), _ => true })
}
pub open spec fn tight_trees<L, T>(v: Seq<(L, Vec<DepthItem<L, T>>)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1@.len() > 0 && tight(v[i].1@)
    &&& forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] v[i]).0 != v[i + 1].0
}
pub open spec fn tight_open<L, T>(v: Seq<(L, Vec<DepthItem<L, T>>)>) -> bool {
    &&& v.len() > 0
    &&& forall|i: int| 0 <= i < v.len() ==> tight((#[trigger] v[i]).1@)
    &&& forall|i: int| 0 <= i < v.len() - 1 ==> !ends_with_list((#[trigger] v[i]).1@, v[i + 1].0)
}
pub proof fn flat_list_push<L, T>(v: Seq<DepthItem<L, T>>, x: DepthItem<L, T>, d: nat, l: L)
    ensures flat_list(v.push(x), d, l) == flat_list(v, d, l) + flat_item(x, d, l),
{ assert(v.push(x).drop_last() =~= v); }
pub proof fn flat_open_push<L, T>(v: Seq<(L, Vec<DepthItem<L, T>>)>, x: (L, Vec<DepthItem<L, T>>))
    ensures flat_open(v.push(x)) == flat_open(v) + flat_list(x.1@, v.len(), x.0),
{ assert(v.push(x).drop_last() =~= v); }
pub proof fn flat_trees_push<L, T>(v: Seq<(L, Vec<DepthItem<L, T>>)>, x: (L, Vec<DepthItem<L, T>>))
    ensures flat_trees(v.push(x)) == flat_trees(v) + flat_list(x.1@, 0, x.0),
{ assert(v.push(x).drop_last() =~= v); }

impl<L, T> DepthStack<L, T> {
    pub open spec fn flat(&self) -> Seq<(nat, L, T)> { flat_trees(self.finished@) + flat_open(self.stack@) }
    // the innermost list has just had something put in, or nothing ever has
    pub open spec fn fresh(&self) -> bool { self.finished@.len() == 0 && self.stack@.len() == 1 && self.stack@[0].1@.len() == 0 }
    pub open spec fn wf(&self) -> bool {
        &&& tight_trees(self.finished@)
        &&& tight_open(self.stack@)
        &&& self.finished@.len() > 0 ==> self.finished@.last().0 != self.stack@[0].0
        &&& self.stack.fits()
    }
    pub open spec fn top(&self) -> Seq<DepthItem<L, T>> { self.stack@.last().1@ }
    pub open spec fn ends_with_item(&self) -> bool { self.top().len() > 0 && self.top().last() is Item }
}

impl<L, T> DepthStack<L, T>
where
    L: Copy,
{
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` new r
//@spec
    ensures r.wf(), r.fresh(), r.flat() == Seq::<(nat, L, T)>::empty(), r.stack@[0].0 == top_ltype,
//@pre
    proof {
        reveal_with_fuel(flat_open, 2);
        assert forall|x: (L, Vec<DepthItem<L, T>>)| x.1@.len() == 0 implies flat_open(#[trigger] seq![x]) =~= Seq::<(nat, L, T)>::empty() by { assert(seq![x].drop_last() =~= Seq::empty()); }
        assert(Seq::<(nat, L, T)>::empty() + Seq::<(nat, L, T)>::empty() =~= Seq::<(nat, L, T)>::empty());
    }
//@end
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` increase_depth
//@spec
    requires
        old(self).wf(),
        !ends_with_list(old(self).top(), ltype),
        old(self).stack@.len() < usize::MAX,
    ensures
        final(self).wf(), final(self).flat() == old(self).flat(),
        final(self).finished == old(self).finished,
        final(self).stack@.len() == old(self).stack@.len() + 1,
        final(self).stack@.drop_last() == old(self).stack@,
        final(self).stack@.last().0 == ltype, final(self).top().len() == 0,
//@post
    proof {
        let o = old(self).stack@; let s = self.stack@;
        flat_open_push(o, s.last());
        assert(s == o.push(s.last()));
        assert(s.drop_last() =~= o);
        assert(flat_open(o) + Seq::<(nat, L, T)>::empty() =~= flat_open(o));
        assert(forall|i: int| 0 <= i < o.len() ==> #[trigger] s[i] == o[i]);
        assert(self.stack.others@.len() == o.len());
    }
//@end
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` decrease_depth
//@spec
    requires
        old(self).wf(), old(self).stack@.len() > 1,
        old(self).top().len() > 0,
    ensures
        final(self).wf(), final(self).flat() == old(self).flat(),
        final(self).finished == old(self).finished,
        final(self).stack@.len() == old(self).stack@.len() - 1,
        final(self).stack@[0].0 == old(self).stack@[0].0,
        final(self).top().len() > 0,
        final(self).top().last() matches DepthItem::List(k, _) && k == old(self).stack@.last().0,
        forall|i: int| 0 <= i < final(self).stack@.len() ==> (#[trigger] final(self).stack@[i]).0 == old(self).stack@[i].0,
//@post
    proof {
        let o = old(self).stack@; let s = self.stack@; let n = o.len() as int;
        let p = o.drop_last();
        let (k, v) = o.last();
        assert(flat_open(o) == flat_open(p) + flat_list(v@, (n - 1) as nat, k));
        assert(flat_open(p) == flat_open(p.drop_last()) + flat_list(p.last().1@, (n - 2) as nat, p.last().0));
        assert(s.drop_last() =~= p.drop_last());
        assert(s.last().1@ =~= p.last().1@.push(DepthItem::List(k, v)));
        flat_list_push(p.last().1@, DepthItem::List(k, v), (n - 2) as nat, p.last().0);
        assert(flat_open(s) =~= flat_open(o));
        assert(s.last().1@.drop_last() =~= p.last().1@);
        assert(p.last() == o[n - 2]);
        assert(o[n - 1] == o.last());
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s[i] == o[i] by { assert(s[i] == s.drop_last()[i]); assert(s[i] == p.drop_last()[i]); }
        assert(s.last().0 == o[n - 2].0);
        assert forall|i: int| 0 <= i < s.len() implies tight((#[trigger] s[i]).1@) by {
            if i < s.len() - 1 { assert(s[i] == o[i]); } else { assert(tight(o[n - 2].1@)); assert(tight_item(DepthItem::<L, T>::List(k, v))); }
        }
        assert forall|i: int| 0 <= i < s.len() - 1 implies !ends_with_list((#[trigger] s[i]).1@, s[i + 1].0) by { assert(s[i] == o[i]); }
    }
//@end
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` new_list
//@spec
    requires
        old(self).wf(), old(self).fresh() || old(self).top().len() > 0,
        old(self).stack@.last().0 != ltype,
        old(self).stack@.len() < usize::MAX,
    ensures
        final(self).wf(), final(self).flat() == old(self).flat(),
        final(self).stack@.len() == old(self).stack@.len(),
        final(self).stack@.last().0 == ltype, final(self).top().len() == 0,
//@end
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` push
//@spec
    ensures
        final(self).finished == old(self).finished,
        final(self).stack@.len() == old(self).stack@.len(),
        final(self).stack@.drop_last() =~= old(self).stack@.drop_last(),
        final(self).stack@.last().0 == old(self).stack@.last().0,
        final(self).stack@.last().1@ == old(self).stack@.last().1@.push(item),
//@end
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` push_item
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).flat() == old(self).flat().push(((old(self).stack@.len() - 1) as nat, old(self).stack@.last().0, item)),
        final(self).ends_with_item(),
        final(self).stack@.len() == old(self).stack@.len(),
//@post
    proof {
        let o = old(self).stack@; let s = self.stack@;
        let x = DepthItem::Item(item);
        flat_list_push(o.last().1@, x, (o.len() - 1) as nat, o.last().0);
        assert(flat_item::<L, T>(x, (o.len() - 1) as nat, o.last().0) =~= seq![((o.len() - 1) as nat, o.last().0, item)]);
        assert(self.flat() =~= old(self).flat().push(((o.len() - 1) as nat, o.last().0, item)));
        assert(s.last().1@.drop_last() =~= o.last().1@);
        assert forall|i: int| 0 <= i < s.len() implies tight((#[trigger] s[i]).1@) by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); assert(s[i] == o[i]); } else { assert(tight(o[i].1@)); assert(tight_item::<L, T>(x)); }
        }
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == o[i].0 by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); assert(s[i] == o.drop_last()[i]); } }
        assert forall|i: int| 0 <= i < s.len() - 1 implies !ends_with_list((#[trigger] s[i]).1@, s[i + 1].0) by { assert(s[i] == s.drop_last()[i]); assert(s[i] == o[i]); assert(s[i + 1].0 == o[i + 1].0); }
    }
//@end
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` last_type r
//@spec
    ensures r == self.stack@.last().0,
//@end
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` finish_depth_list
//@spec
    requires
        old(self).wf(), old(self).fresh() || old(self).top().len() > 0,
        new_ltype matches Some(l) ==> old(self).stack@.len() == 1 && l != old(self).stack@[0].0,
    ensures
        final(self).flat() == old(self).flat(),
        final(self).stack@.len() == 1, final(self).stack@[0].1@.len() == 0,
        tight_trees(final(self).finished@),
        new_ltype matches Some(l) ==> final(self).wf() && final(self).stack@[0].0 == l,
//@loop 0 it
    invariant
        it.seq().len() == old(self).stack@.len() - 1,
        self.stack@.len() == old(self).stack@.len() - it.index(),
        self.wf(), self.fresh() || self.top().len() > 0,
        self.flat() == old(self).flat(),
        self.stack@[0].0 == old(self).stack@[0].0,
//@after 0
    let ghost m = *self;
//@post
    proof {
        let x = m.stack@[0];
        assert(m.stack@.drop_last() =~= Seq::empty());
        assert(self.stack@.drop_last() =~= Seq::empty());
        reveal_with_fuel(flat_open, 2);
        flat_trees_push(m.finished@, x);
        assert(flat_open(m.stack@) =~= flat_list(x.1@, 0, x.0));
        assert(flat_open(self.stack@) =~= Seq::empty());
        assert(self.flat() =~= m.flat());
        assert(self.stack.others@.len() == 0);
        if x.1@.len() == 0 { assert(m.finished@.len() == 0); assert(self.finished@ == m.finished@); }
        if x.1@.len() > 0 {
            let f = self.finished@;
            assert(f == m.finished@.push(x));
            assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).1@.len() > 0 && tight(f[i].1@) by { if i < f.len() - 1 { assert(f[i] == m.finished@[i]); } }
            assert forall|i: int| 0 <= i < f.len() - 1 implies (#[trigger] f[i]).0 != f[i + 1].0 by { assert(f[i] == m.finished@[i]); if i == f.len() - 2 { assert(m.finished@.last() == f[i]); } else { assert(f[i + 1] == m.finished@[i + 1]); } }
        }
    }
//@end
//@fn src/parsing/depth.rs @ `impl<L, T> DepthStack<L, T>` into_trees r
//@spec
    requires self.wf(), self.fresh() || self.top().len() > 0,
    ensures flat_trees(r@) == self.flat(), tight_trees(r@),
//@at 0 `vf_self.finished`
    proof {
        assert(vf_self.stack@.drop_last() =~= Seq::empty());
        reveal_with_fuel(flat_open, 2);
        assert(flat_open(vf_self.stack@) =~= Seq::empty());
        assert(vf_self.flat() =~= flat_trees(vf_self.finished@));
    }
//@end
}

pub open spec fn as_flat<L, T>(s: Seq<(usize, L, T)>) -> Seq<(nat, L, T)> { s.map_values(|x: (usize, L, T)| (x.0 as nat, x.1, x.2)) }

//@fn src/parsing/depth.rs process_depths r
//@sig
pub fn process_depths<L, T>(top_ltype: L, items: Vec<(usize, L, T)>) -> (r: Vec<(L, DepthList<L, T>)>)
where
    L: Copy + PartialEq,
//@spec
    requires
        forall|i: int| 0 <= i < items@.len() ==> (#[trigger] items@[i]).0 < usize::MAX - 1,
        <L as vstd::std_specs::cmp::PartialEqSpec<L>>::obeys_eq_spec(),
        forall|a: L, b: L| #[trigger] <L as vstd::std_specs::cmp::PartialEqSpec<L>>::eq_spec(&a, &b) == (a == b),
    ensures
        // every item once, in order, inside as many lists as its depth, in a list of its kind
        flat_trees(r@) == as_flat(items@),
        // no list is split without need and none is empty
        tight_trees(r@),
//@loop 0 it
    invariant
        it.seq() == items@,
        forall|i: int| 0 <= i < items@.len() ==> (#[trigger] items@[i]).0 < usize::MAX - 1,
        <L as vstd::std_specs::cmp::PartialEqSpec<L>>::obeys_eq_spec(),
        forall|a: L, b: L| #[trigger] <L as vstd::std_specs::cmp::PartialEqSpec<L>>::eq_spec(&a, &b) == (a == b),
        stack.wf(), stack.fresh() || stack.ends_with_item(),
        stack.flat() == as_flat(items@.take(it.index())),
        stack.stack@.len() == previous + 1, previous < usize::MAX - 1,
//@loop 1 up
    invariant
        stack.wf(), stack.fresh() || up.index() > 0 || stack.ends_with_item(),
        previous < depth ==> up.seq().len() == depth - previous, depth < usize::MAX - 1,
        previous >= depth ==> up.seq().len() == 0,
        up.index() > 0 ==> stack.top().len() == 0,
        up.index() > 0 ==> stack.stack@.last().0 == ltype,
        stack.stack@.len() == previous + 1 + up.index(),
        stack.flat() == as_flat(items@.take(it.index())),
//@loop 2 down
    invariant
        stack.wf(), previous > depth ==> down.seq().len() == previous - depth,
        previous <= depth ==> down.seq().len() == 0,
        previous >= depth ==> stack.stack@.len() == previous + 1 - down.index(),
        previous < depth ==> stack.stack@.len() == depth + 1,
        previous < depth ==> stack.stack@.last().0 == ltype,
        previous >= depth ==> stack.fresh() || stack.top().len() > 0,
        stack.flat() == as_flat(items@.take(it.index())),
//@tail 0
    proof {
        let n = it.index();
        assert(items@.take(n + 1).drop_last() =~= items@.take(n));
        assert(as_flat(items@.take(n + 1)) =~= as_flat(items@.take(n)).push((depth as nat, ltype, items@[n].2)));
    }
//@after 0
    proof { assert(items@.take(items@.len() as int) =~= items@); }
//@pre
    proof { assert(as_flat(items@.take(0)) =~= Seq::empty()); }
//@end
