// C08: bibliographies.
//@use payloads
//@use tree
//@use strx
impl<'t> Bibliography<'t> {
    pub open spec fn view(&self) -> Seq<(Seq<char>, Seq<Element<'t>>)> { self.0@.map_values(|e: (Cow<'t, str>, Vec<Element<'t>>)| (e.0@, e.1@)) }
}
//@type src/tree/bibliography.rs Bibliography
//@end
//@type src/tree/bibliography.rs BibliographyList
//@end
// The entry of a label: the number written in front of it, and its contents.
pub open spec fn first_with<'t>(b: Seq<(Seq<char>, Seq<Element<'t>>)>, label: Seq<char>) -> Option<(nat, Seq<Element<'t>>)>
    decreases b.len(),
{
    if b.len() == 0 { None } else {
        match first_with(b.drop_last(), label) {
            Some(r) => Some(r),
            None => if b.last().0 == label { Some((b.len(), b.last().1)) } else { None },
        }
    }
}
// No two entries of a bibliography have the same label.
pub open spec fn distinct(b: Seq<(Seq<char>, Seq<Element>)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 != (#[trigger] b[j]).0
}
pub proof fn first_with_facts<'t>(b: Seq<(Seq<char>, Seq<Element<'t>>)>, label: Seq<char>)
    ensures match first_with(b, label) {
        Some(r) => 1 <= r.0 <= b.len() && b[r.0 - 1] == (label, r.1) && forall|i: int| 0 <= i < r.0 - 1 ==> (#[trigger] b[i]).0 != label,
        None => forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 != label,
    },
    decreases b.len(),
{
    if b.len() > 0 {
        let d = b.drop_last();
        first_with_facts(d, label);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] b[i] == d[i] by {}
    }
}
pub proof fn first_with_take<'t>(b: Seq<(Seq<char>, Seq<Element<'t>>)>, label: Seq<char>, n: int)
    requires 0 <= n <= b.len(), first_with(b.take(n), label).is_some(),
    ensures first_with(b, label) == first_with(b.take(n), label),
    decreases b.len(),
{
    if n < b.len() { assert(b.drop_last().take(n) =~= b.take(n)); first_with_take(b.drop_last(), label, n); }
    else { assert(b.take(n) =~= b); }
}
// The bibliographies of a document are searched in order.
pub open spec fn cited<'t>(l: Seq<Bibliography<'t>>, label: Seq<char>) -> Option<(nat, Seq<Element<'t>>)>
    decreases l.len(),
{
    if l.len() == 0 { None } else {
        match cited(l.drop_last(), label) { Some(r) => Some(r), None => first_with(l.last()@, label) }
    }
}
pub proof fn cited_take<'t>(l: Seq<Bibliography<'t>>, label: Seq<char>, n: int)
    requires 0 <= n <= l.len(), cited(l.take(n), label).is_some(),
    ensures cited(l, label) == cited(l.take(n), label),
    decreases l.len(),
{
    if n < l.len() { assert(l.drop_last().take(n) =~= l.take(n)); cited_take(l.drop_last(), label, n); }
    else { assert(l.take(n) =~= l); }
}
// One more entry changes the number and contents of no other one.
pub proof fn adding_keeps<'t>(b: Seq<(Seq<char>, Seq<Element<'t>>)>, label: Seq<char>, e: (Seq<char>, Seq<Element<'t>>))
    requires e.0 != label,
    ensures first_with(b.push(e), label) == first_with(b, label),
{ assert(b.push(e).drop_last() =~= b); }
impl<'t> Bibliography<'t> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.0@.len() == 0 { unimplemented!() }
//@fn src/tree/bibliography.rs @ `impl<'t> Bibliography<'t>` new r
//@spec
    ensures r@ == Seq::<(Seq<char>, Seq<Element<'t>>)>::empty(), distinct(r@),
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> Bibliography<'t>` get r
//@sub `for (index, (ref_label, elements)) in self.0.iter().enumerate()` => `for index in 0..self.0.len()`
//@sub `label == ref_label` => `vf_eq(label, vf_cow(&self.0[index].0))`
//@sub `Some((index + 1, elements))` => `Some((index + 1, self.0[index].1.as_slice()))`
//@spec
    ensures match first_with(self@, label@) {
        Some(e) => r.is_some() && r->Some_0.0 == e.0 && r->Some_0.1@ == e.1,
        None => r.is_none(),
    },
//@loop 0 it
    invariant it.seq().len() == self.0@.len(), first_with(self@.take(it.index()), label@).is_none(),
        forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i,
//@outside 0
    proof { assert(self@.take(0) =~= Seq::<(Seq<char>, Seq<Element<'t>>)>::empty()); }
//@in 0
    proof {
        let n = it.index();
        assert(self@.take(n + 1).drop_last() =~= self@.take(n));
        if self@[n].0 == label@ { first_with_take(self@, label@, n + 1); }
    }
//@after 0
    proof { assert(self@.take(self@.len() as int) =~= self@); }
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> Bibliography<'t>` add
//@sub `self.get(&label)` => `self.get(vf_cow(&label))`
//@spec
    ensures
        final(self)@ == if first_with(old(self)@, label@).is_some() { old(self)@ } else { old(self)@.push((label@, elements@)) },
        distinct(old(self)@) ==> distinct(final(self)@),
        // the entry written first wins, with the number it has got
        forall|l: Seq<char>| #[trigger] first_with(old(self)@, l).is_some() ==> first_with(final(self)@, l) == first_with(old(self)@, l),
        first_with(final(self)@, label@).is_some(),
//@pre
    let ghost b = self@;
    proof { first_with_facts(b, label@); }
//@post
    proof {
        assert(self@ =~= b.push((label@, elements@)));
        assert(b.push((label@, elements@)).drop_last() =~= b);
    }
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> Bibliography<'t>` slice r
//@spec
    ensures r@ == self.0@,
//@end
}
#[verifier::external_body]
pub fn vf_cow<'a>(c: &'a Cow<str>) -> (r: &'a str) ensures r@ == c@ { unimplemented!() }
impl<'t> BibliographyList<'t> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.0@.len() == 0 { unimplemented!() }
//@fn src/tree/bibliography.rs @ `impl<'t> BibliographyList<'t>` new r
//@spec
    ensures r.0@.len() == 0,
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> BibliographyList<'t>` push
//@spec
    ensures final(self).0@ == old(self).0@.push(bibliography),
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> BibliographyList<'t>` append
//@spec
    ensures final(self).0@ == old(self).0@ + old(other).0@, final(other).0@.len() == 0,
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> BibliographyList<'t>` truncate
//@spec
    ensures final(self).0@ == if len < old(self).0@.len() { old(self).0@.take(len as int) } else { old(self).0@ },
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> BibliographyList<'t>` next_index r
//@spec
    ensures r == self.0@.len(),
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> BibliographyList<'t>` get_reference r
//@sub `for bibliography in &self.0` => `for bibliography in self.0.iter()`
//@spec
    ensures match cited(self.0@, label@) {
        Some(e) => r.is_some() && r->Some_0.0 == e.0 && r->Some_0.1@ == e.1,
        None => r.is_none(),
    },
//@loop 0 it
    invariant it.seq().len() == self.0@.len(), cited(self.0@.take(it.index()), label@).is_none(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.0@[i],
//@outside 0
    proof { assert(self.0@.take(0) =~= Seq::<Bibliography<'t>>::empty()); }
//@in 0
    proof {
        let n = it.index();
        assert(self.0@.take(n + 1).drop_last() =~= self.0@.take(n));
        if first_with(self.0@[n]@, label@).is_some() { cited_take(self.0@, label@, n + 1); }
    }
//@after 0
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@end
//@fn src/tree/bibliography.rs @ `impl<'t> BibliographyList<'t>` get_bibliography r
//@spec
    requires index < self.0@.len(),
    ensures *r == self.0@[index as int],
//@end
}
