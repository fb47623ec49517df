// C28: paragraphs.
//@import rules
//@use mem
// What a page is made of, as it is come across ...
pub enum Item<'t> { Inline(Element<'t>), Block(Element<'t>), Break }
// ... and as it is put together.
pub enum Piece<'t> { Para(Seq<Element<'t>>), Block(Element<'t>) }
pub struct Gathered<'t> { pub done: Seq<Piece<'t>>, pub open: Seq<Element<'t>> }
impl<'t> Gathered<'t> {
    pub open spec fn start() -> Self { Gathered { done: Seq::empty(), open: Seq::empty() } }
    pub open spec fn close(self) -> Self {
        if self.open.len() == 0 { self } else { Gathered { done: self.done.push(Piece::Para(self.open)), open: Seq::empty() } }
    }
    pub open spec fn feed(self, i: Item<'t>) -> Self {
        match i {
            Item::Break => self.close(),
            Item::Inline(e) => if self.open.len() == 0 && e is LineBreak { self } else { Gathered { done: self.done, open: self.open.push(e) } },
            Item::Block(e) => if self.open.len() == 0 && e is LineBreak { self } else { Gathered { done: self.close().done.push(Piece::Block(e)), open: Seq::empty() } },
        }
    }
    // An element as it is, line breaks too.
    pub open spec fn put(self, e: Element<'t>, safe: bool) -> Self {
        if safe { Gathered { done: self.done, open: self.open.push(e) } } else { Gathered { done: self.close().done.push(Piece::Block(e)), open: Seq::empty() } }
    }
    pub open spec fn fed(items: Seq<Item<'t>>) -> Self
        decreases items.len(),
    { if items.len() == 0 { Self::start() } else { Self::fed(items.drop_last()).feed(items.last()) } }
    pub open spec fn feed_all(self, items: Seq<Item<'t>>) -> Self
        decreases items.len(),
    { if items.len() == 0 { self } else { self.feed_all(items.drop_last()).feed(items.last()) } }
}
pub proof fn fed_all<'t>(a: Seq<Item<'t>>, b: Seq<Item<'t>>)
    ensures Gathered::fed(a + b) == Gathered::fed(a).feed_all(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        fed_all(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub open spec fn item<'t>(e: Element<'t>, safe: bool) -> Item<'t> { if safe { Item::Inline(e) } else { Item::Block(e) } }
pub open spec fn flat<'t>(p: Seq<Piece<'t>>) -> Seq<Element<'t>>
    decreases p.len(),
{ if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + match p.last() { Piece::Para(s) => s, Piece::Block(e) => seq![e] } } }
// What there is to be shown: everything but breaks, and line breaks with nothing in front of them.
pub open spec fn shown<'t>(items: Seq<Item<'t>>) -> Seq<Element<'t>>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        let before = Gathered::fed(items.drop_last()).open;
        shown(items.drop_last()) + match items.last() {
            Item::Break => Seq::empty(),
            Item::Inline(e) | Item::Block(e) => if before.len() == 0 && e is LineBreak { Seq::empty() } else { seq![e] },
        }
    }
}
pub proof fn flat_push<'t>(p: Seq<Piece<'t>>, x: Piece<'t>)
    ensures flat(p.push(x)) == flat(p) + match x { Piece::Para(s) => s, Piece::Block(e) => seq![e] },
{ assert(p.push(x).drop_last() =~= p); }
// Each item is there once, in order.
pub proof fn nothing_lost<'t>(items: Seq<Item<'t>>)
    ensures flat(Gathered::fed(items).done) + Gathered::fed(items).open == shown(items), flat(Gathered::fed(items).close().done) == shown(items),
    decreases items.len(),
{
    let g = Gathered::fed(items);
    if items.len() > 0 {
        let b = Gathered::fed(items.drop_last());
        nothing_lost(items.drop_last());
        flat_push(b.done, Piece::Para(b.open));
        match items.last() {
            Item::Block(e) => { flat_push(b.close().done, Piece::Block(e)); }
            _ => {}
        }
    }
    flat_push(g.done, Piece::Para(g.open));
    assert(flat(g.done) + g.open =~= shown(items));
    assert(flat(g.close().done) =~= shown(items));
}
// No paragraph is empty, and only what is inline is in one.
pub open spec fn sound(p: Seq<Piece>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> match #[trigger] p[i] { Piece::Para(s) => s.len() > 0 && all_inline(s) && !(s[0] is LineBreak), _ => true }
}
pub open spec fn honest(items: Seq<Item>) -> bool { forall|i: int| 0 <= i < items.len() ==> match #[trigger] items[i] { Item::Inline(e) => inline(e), _ => true } }
pub proof fn paragraphs_sound<'t>(items: Seq<Item<'t>>)
    requires honest(items),
    ensures
        sound(Gathered::fed(items).done), sound(Gathered::fed(items).close().done), all_inline(Gathered::fed(items).open),
        Gathered::fed(items).open.len() > 0 ==> !(Gathered::fed(items).open[0] is LineBreak),
    decreases items.len(),
{ if items.len() > 0 { assert(items.last() == items[items.len() - 1]); paragraphs_sound(items.drop_last()); } }
pub open spec fn shows(e: Element, p: Piece) -> bool {
    match p {
        Piece::Block(b) => e == b,
        Piece::Para(s) => match e { Element::Container(c) => c.ctype is Paragraph && c.elements@ == s && c.attributes@ == Map::<Seq<char>, Seq<char>>::empty(), _ => false },
    }
}
pub open spec fn all_show(e: Seq<Element>, p: Seq<Piece>) -> bool { e.len() == p.len() && forall|i: int| 0 <= i < e.len() ==> shows(#[trigger] e[i], p[i]) }
//@type src/parsing/paragraph/stack.rs ParagraphStack
//@end
impl<'t> ParagraphStack<'t> {
    pub open spec fn is(&self, g: Gathered<'t>) -> bool { self.current@ =~= g.open && all_show(self.finished@, g.done) }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.current@.len() == 0, r.finished@.len() == 0, r.errors@.len() == 0 { unimplemented!() }
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` new r
//@spec
    ensures r.is(Gathered::start()), r.finished@.len() == 0, r.current@.len() == 0, r.errors@.len() == 0,
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` current_empty r
//@spec
    ensures r == (self.current@.len() == 0),
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` reserve_elements
//@spec
    ensures final(self).current@ == old(self).current@, final(self).finished == old(self).finished, final(self).errors == old(self).errors,
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` build_paragraph r
//@sub `mem::take(` => `vf_take(`
//@spec
    ensures
        match r { Some(e) => old(self).current@.len() > 0 && shows(e, Piece::Para(old(self).current@)), None => old(self).current@.len() == 0 },
        final(self).current@.len() == 0, final(self).finished == old(self).finished, final(self).errors == old(self).errors,
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` end_paragraph
//@spec
    ensures
        forall|g: Gathered<'t>| #![trigger old(self).is(g)] old(self).is(g) ==> final(self).is(g.close()),
        old(self).current@.len() == 0 ==> final(self).finished@ == old(self).finished@,
        old(self).current@.len() > 0 ==> final(self).finished@.len() == old(self).finished@.len() + 1 && final(self).finished@.drop_last() == old(self).finished@
            && shows(final(self).finished@.last(), Piece::Para(old(self).current@)),
        final(self).current@.len() == 0,
        no_partial(old(self).finished@) ==> no_partial(final(self).finished@),
        final(self).errors == old(self).errors,
//@pre
    let ghost s0 = *self;
//@post
    proof {
        if no_partial(s0.finished@) {
            assert forall|i: int| 0 <= i < self.finished@.len() implies !partial(#[trigger] self.finished@[i]) by {
                if i < s0.finished@.len() { assert(self.finished@[i] == s0.finished@[i]); }
            }
        }
        assert forall|g: Gathered<'t>| #![trigger s0.is(g)] s0.is(g) implies self.is(g.close()) by {
            if s0.current@.len() > 0 {
                assert(self.finished@ =~= s0.finished@.push(self.finished@.last()));
                assert(s0.current@ == g.open);
                assert forall|i: int| 0 <= i < self.finished@.len() implies shows(#[trigger] self.finished@[i], g.close().done[i]) by {
                    if i < s0.finished@.len() { assert(self.finished@[i] == s0.finished@[i]); assert(shows(s0.finished@[i], g.done[i])); }
                }
            }
        }
    }
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` push_element
//@spec
    ensures
        forall|g: Gathered<'t>| #![trigger old(self).is(g)] old(self).is(g) ==> final(self).is(g.put(element, paragraph_safe))
            && (!(g.open.len() == 0 && element is LineBreak) ==> g.put(element, paragraph_safe) == g.feed(item(element, paragraph_safe))),
        no_partial(old(self).finished@) && no_partial(old(self).current@) && !partial(element) ==> no_partial(final(self).finished@) && no_partial(final(self).current@),
        final(self).errors == old(self).errors,
//@pre
    let ghost s0 = *self;
//@at 0 `self.finished.push(element)`
    let ghost s1 = *self;
    proof { assert(s0.finished@.len() < s1.finished@.len() ==> s1.finished@ =~= s0.finished@.push(s1.finished@.last())); }
//@past 0 `self.finished.push(element);`
    proof {
        assert forall|g: Gathered<'t>| #![trigger s0.is(g)] s0.is(g) implies self.is(g.put(element, false)) by {
            assert(s1.is(g.close()));
            let f = g.put(element, false);
            assert forall|i: int| 0 <= i < self.finished@.len() implies shows(#[trigger] self.finished@[i], f.done[i]) by {
                if i < s1.finished@.len() { assert(self.finished@[i] == s1.finished@[i]); assert(shows(s1.finished@[i], g.close().done[i])); }
            }
        }
        if no_partial(s0.finished@) && no_partial(s0.current@) && !partial(element) {
            assert forall|i: int| 0 <= i < self.finished@.len() implies !partial(#[trigger] self.finished@[i]) by {
                if i < s0.finished@.len() { assert(self.finished@[i] == s0.finished@[i]); }
            }
        }
    }
//@post
    proof {
        if paragraph_safe && no_partial(s0.finished@) && no_partial(s0.current@) && !partial(element) {
            assert forall|i: int| 0 <= i < self.current@.len() implies !partial(#[trigger] self.current@[i]) by {
                if i < s0.current@.len() { assert(self.current@[i] == s0.current@[i]); }
            }
        }
    }
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` push_errors
//@spec
    ensures final(self).current == old(self).current, final(self).finished == old(self).finished, final(self).errors@ == old(self).errors@ + old(errors)@,
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` pop_line_break
//@spec
    ensures
        final(self).finished == old(self).finished, final(self).errors == old(self).errors,
        final(self).current@ == if old(self).current@.len() > 0 && old(self).current@.last() is LineBreak { old(self).current@.drop_last() } else { old(self).current@ },
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` into_result r
//@sub `elements.iter().all(|element| $x)` => `{ let mut vf_all = true; for element in elements.iter() { if !($x) { vf_all = false; break; } } vf_all }`
//@sub `ok!(paragraph_safe; elements, errors)` => `Ok(ParseSuccess::new(elements, errors, paragraph_safe))`
//@spec
    requires no_partial(self.finished@),
    ensures
        r.is_ok(), no_partial(r->Ok_0.item@),
        forall|g: Gathered<'t>| #![trigger self.is(g)] self.is(g) ==> all_show(r->Ok_0.item@, g.close().done),
        r->Ok_0.paragraph_safe == all_inline(r->Ok_0.item@),
        r->Ok_0.errors == self.errors,
//@at 0 `let paragraph_safe`
    proof {
        assert forall|i: int| 0 <= i < elements@.len() implies !partial(#[trigger] elements@[i]) by {
            if i < self.finished@.len() { assert(elements@[i] == self.finished@[i]); }
        }
    }
//@loop 0 it
    invariant_except_break
        vf_all, forall|i: int| 0 <= i < it.index() ==> inline(#[trigger] elements@[i]),
    invariant
        it.seq().len() == elements@.len(), no_partial(elements@),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i],
    ensures vf_all == all_inline(elements@),
//@end
//@fn src/parsing/paragraph/stack.rs @ `impl<'t> ParagraphStack<'t>` into_elements r
//@spec
    requires self.errors@.len() == 0,
    ensures forall|g: Gathered<'t>| #![trigger self.is(g)] self.is(g) ==> all_show(r@, g.close().done),
//@end
}
pub open spec fn batch<'t>(e: Seq<Element<'t>>, safe: bool) -> Seq<Item<'t>> { Seq::new(e.len(), |i: int| item(e[i], safe)) }
pub proof fn batch_next<'t>(e: Seq<Element<'t>>, n: int, safe: bool)
    requires 0 <= n < e.len(),
    ensures batch(e.take(n + 1), safe).len() > 0, batch(e.take(n + 1), safe).drop_last() == batch(e.take(n), safe), batch(e.take(n + 1), safe).last() == item(e[n], safe),
{ assert(batch(e.take(n + 1), safe).drop_last() =~= batch(e.take(n), safe)); }
#[verifier::external_body]
pub fn vf_list<'t>(e: Elements<'t>) -> (r: Vec<Element<'t>>) ensures r@ == e@ { unimplemented!() }
pub fn vf_is_line_break(e: &Element) -> (r: bool) ensures r == (*e is LineBreak) { match e { Element::LineBreak => true, _ => false } }
pub proof fn fed_push<'t>(items: Seq<Item<'t>>, i: Item<'t>)
    ensures Gathered::fed(items.push(i)) == Gathered::fed(items).feed(i),
{ assert(items.push(i).drop_last() =~= items); }
//@fn src/parsing/paragraph/mod.rs push_elements
//@sub `for element in elements` => `let vf_es = vf_list(elements); for element in vf_es`
//@sub `{ continue; } stack.push_element($x);` => `{ } else { stack.push_element($x); }`
//@sub `element == Element::LineBreak` => `vf_is_line_break(&element)`
//@spec
    ensures
        forall|g: Gathered<'t>| #![trigger old(stack).is(g)] old(stack).is(g) ==> final(stack).is(g.feed_all(batch(elements@, paragraph_safe))),
        no_partial(old(stack).finished@) && no_partial(old(stack).current@) && no_partial(elements@) ==> no_partial(final(stack).finished@) && no_partial(final(stack).current@),
        final(stack).errors == old(stack).errors,
//@pre
    let ghost s0 = *stack;
//@outside 0
    let ghost es = elements@;
    proof { assert(batch(es.take(0), paragraph_safe).len() == 0); }
//@loop 0 it
    invariant
        it.seq() == es, es == elements@, s0 == *old(stack),
        forall|g: Gathered<'t>| #![trigger s0.is(g)] s0.is(g) ==> stack.is(g.feed_all(batch(es.take(it.index()), paragraph_safe))),
        no_partial(s0.finished@) && no_partial(s0.current@) && no_partial(elements@) ==> no_partial(stack.finished@) && no_partial(stack.current@),
        stack.errors == s0.errors,
//@in 0
    let ghost n = it.index();
    proof {
        batch_next(es, n, paragraph_safe);
        assert forall|g: Gathered<'t>| #![trigger s0.is(g)] s0.is(g) implies ({ let h = g.feed_all(batch(es.take(n), paragraph_safe)); stack.is(h) && g.feed_all(batch(es.take(n + 1), paragraph_safe)) == h.feed(item(es[n], paragraph_safe)) }) by {}
    }
//@after 0
    proof { assert(es.take(es.len() as int) =~= es); }
//@end
// A closing condition: looks at the tokens, and may move on over what ends the paragraphs.
pub trait Closing<'r, 't>: Sized {
    fn call(&mut self, parser: &mut Parser<'r, 't>) -> (r: Result<bool, ParseError>)
        requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
        ensures final(parser).moved(old(parser)), !(r.is_ok() && r->Ok_0) ==> final(parser).at(old(parser));
}
pub fn vf_unwrap_or(r: Result<bool, ParseError>, d: bool) -> (b: bool) ensures b == match r { Ok(x) => x, Err(_) => d } { match r { Ok(x) => x, Err(_) => d } }
//@fn src/parsing/paragraph/mod.rs gather_paragraphs r
//@sub `let (elements, mut errors, paragraph_safe) = match parser.current().token { $M }?.into();` => `let (elements, mut errors, paragraph_safe) = vf_into(match parser.current().token { $M }?);`
//@sub `if let Some(ref mut close_condition_fn) = close_condition_fn { if close_condition_fn(parser).unwrap_or(false) { $B } }` => `if let Some(ref mut close_condition_fn) = close_condition_fn { let vf_done = vf_unwrap_or(close_condition_fn.call(parser), false); if vf_done { $B } }`
//@sig
pub fn gather_paragraphs<'r, 't, F: Closing<'r, 't>>(parser: &mut Parser<'r, 't>, rule: Rule, vf_close: Option<F>) -> (r: ParseResult<'r, 't, Vec<Element<'t>>>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is None,
    ensures
        final(parser).ran(old(parser)), final(parser).wf(),
        r.is_ok() ==> final(parser).depth == old(parser).depth && r->Ok_0.paragraph_safe == all_inline(r->Ok_0.item@) && no_partial(r->Ok_0.item@),
        // without a closing condition, everything up to the end of the input is gathered, ...
        r.is_ok() && vf_close.is_none() ==> final(parser).remaining@.len() == 0,
        r.is_err() && vf_close.is_none() ==> r->Err_0.kind == ParseErrorKind::RecursionDepthExceeded,
        // ... with one, the end of the input is too late
        r.is_err() ==> r->Err_0.kind == ParseErrorKind::RecursionDepthExceeded || (r->Err_0.kind == ParseErrorKind::EndOfInput && final(parser).remaining@.len() == 0),
        // nothing but paragraphs made here and what is there, no empty paragraph, and only inline elements in them
        r.is_ok() ==> exists|p: Seq<Piece>| all_show(r->Ok_0.item@, p) && sound(p),
//@pre
    let mut close_condition_fn = vf_close;
    let ghost mut items = Seq::<Item<'t>>::empty();
    let ghost p0 = *parser;
    let ghost f0 = close_condition_fn.is_none();
    proof { from_refl(&p0); more_refl(&p0); }
//@loop 0
    invariant
        stack.is(Gathered::fed(items)), honest(items),
        no_partial(stack.finished@), no_partial(stack.current@),
        parser.ran(&p0), parser.wf(), parser.depth == p0.depth, p0.depth <= MAX_RECURSION_DEPTH, p0.accepts_partial is None, parser.accepts_partial is None,
        p0.wf(), *old(parser) == p0, close_condition_fn.is_none() == f0, f0 == vf_close.is_none(),
    ensures f0 ==> parser.remaining@.len() == 0,
    decreases parser.remaining@.len(),
//@in 0
    let ghost p1 = *parser;
    proof {
        assert forall|b: Parser| #![trigger b.moved(&p1)] b.moved(&p1) implies b.ran(&p0) && b.wf() by { from_trans(&p0, &p1, &b); from_wf(&p1, &b); more_trans(&p0, &p1, &b); }
    }
//@at 0 `let vf_done`
    proof { assert(!f0); assert(*parser == p1); }
//@at 0 `if vf_done`
    proof { assert(parser.moved(&p1)); }
//@at 0 `consume(parser)`
    let ghost p2 = *parser;
    proof {
        assert(p2.at(&p1));
        if f0 { from_refl(&p1); }
        from_trans(&p0, &p1, &p2); from_wf(&p1, &p2); more_trans(&p0, &p1, &p2);
        assert forall|b: Parser| #![trigger b.ran(&p2)] b.ran(&p2) implies b.ran(&p0) by { from_trans(&p0, &p2, &b); more_trans(&p0, &p2, &b); }
    }
//@at 0 `push_elements(`
    let ghost more = batch(elements@, paragraph_safe);
    let ghost es = elements@;
    proof {
        assert(no_partial(elements@));
        fed_all(items, more);
        assert forall|i: int| 0 <= i < (items + more).len() implies match #[trigger] (items + more)[i] { Item::Inline(e) => inline(e), _ => true } by {
            if i < items.len() { assert((items + more)[i] == items[i]); } else { assert((items + more)[i] == item(es[i - items.len()], paragraph_safe)); }
        }
        items = items + more;
    }
//@at 0 `parser.step()?`
    proof {
        fed_push(items, Item::Break);
        let old_items = items;
        items = items.push(Item::Break);
        assert forall|i: int| 0 <= i < items.len() implies match #[trigger] items[i] { Item::Inline(e) => inline(e), _ => true } by {
            if i < old_items.len() { assert(items[i] == old_items[i]); }
        }
    }
//@at 0 `stack.into_result()`
    proof {
        nothing_lost(items);
        paragraphs_sound(items);
    }
//@end
