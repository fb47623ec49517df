// C01, C09, C11, C18: how blocks are read: their names, arguments, contents and ends.
//@import spans arguments blockmap paragraphs
//@pin src/parsing/rule/impls/block/mod.rs `pub type BlockParseFn = for<'r, 't> fn(&mut Parser<'r, 't>, &'t str, bool, bool, bool,) -> ParseResult<'r, 't, Elements<'t>>;`
// A block is read where it was named, with the name it was found under.
pub open spec fn answers(d: Doc, name: Seq<char>) -> bool { exists|j: int| 0 <= j < d.names.len() && eq_nocase((#[trigger] d.names[j])@, name) }
impl<'r, 't> Parser<'r, 't> {
    pub open spec fn ready(&self) -> bool { self.wf() && self.depth <= MAX_RECURSION_DEPTH && self.accepts_partial is None }
    pub open spec fn called(&self, d: Doc, name: Seq<char>, star: bool, score: bool) -> bool {
        self.ready() && answers(d, name) && (star ==> d.star) && (score ==> d.score)
    }
    pub open spec fn went(&self, o: &Self) -> bool { self.ran(o) && self.wf() }
    // What reading the head of a block may do.
    pub open spec fn read(&self, o: &Self) -> bool { self.moved(o) && self.wf() }
}
impl BlockRule {
//@fn src/parsing/rule/impls/block/mod.rs @ `impl BlockRule` rule r
//@sub `fn try_consume_fn<'r, 't>(_: &mut Parser<'r, 't>,) -> ParseResult<'r, 't, Elements<'t>> { $X; } Rule` => `Rule`
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Pseudo,`
//@spec
    ensures r.name == self.name,
//@end
}
impl ModuleRule {
//@fn src/parsing/rule/impls/block/blocks/module/mod.rs @ `impl ModuleRule` rule r
//@sub `fn try_consume_fn<'r, 't>(_: &mut Parser<'r, 't>,) -> ParseResult<'r, 't, Elements<'t>> { $X; } Rule` => `Rule`
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Pseudo,`
//@spec
    ensures r.name == self.name,
//@end
}
// In a build with debug assertions this checks; it must not fail.
//@fn src/parsing/rule/impls/block/blocks/mod.rs @ `mod prelude` assert_generic_name
//@methods eq_ignore_ascii_case
//@sub `for name in expected_names` => `for name in expected_names.iter()`
//@sig
pub fn assert_generic_name(expected_names: &Vec<&'static str>, actual_name: &str, name_type: &str)
//@spec
    requires exists|j: int| 0 <= j < expected_names@.len() && eq_nocase((#[trigger] expected_names@[j])@, actual_name@),
//@loop 0 it
    invariant
        it.seq().len() == expected_names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == expected_names@[i],
        forall|i: int| 0 <= i < it.index() ==> !eq_nocase((#[trigger] expected_names@[i])@, actual_name@),
//@end
//@fn src/parsing/rule/impls/block/blocks/mod.rs @ `mod prelude` assert_block_name
//@sub `assert_generic_name(block_rule.accepts_names,` => `assert_generic_name(&block_rule.accepts_names,`
//@spec
    requires answers(block_rule@, actual_name@),
//@end
pub open spec fn head_ends() -> Seq<ParseCondition> {
    seq![ParseCondition::CurrentToken(Token::Whitespace), ParseCondition::CurrentToken(Token::LineBreak), ParseCondition::CurrentToken(Token::ParagraphBreak), ParseCondition::CurrentToken(Token::RightBlock)]
}
// A name is the text up to a space, a line end or the end of the head; there is more in the head unless that is there.
pub open spec fn names_it<'r, 't>(o: &Parser<'r, 't>, n: int, name: Seq<char>, more: bool, q: &Parser<'r, 't>) -> bool {
    &&& text_upto(Job { from: *o, close: head_ends(), invalid: Seq::empty() }, n)
    &&& name == trim(run_on(o.ahead().take(n)))
    &&& more == !(o.ahead()[n].token is RightBlock)
    &&& q.remaining@.len() == (if n < o.remaining@.len() { o.remaining@.len() - n - 1 } else { 0 })
}
pub open spec fn names_one<'r, 't>(o: &Parser<'r, 't>, name: Seq<char>, more: bool, q: &Parser<'r, 't>) -> bool { exists|n: int| #[trigger] names_it(o, n, name, more, q) }
impl<'r: 't, 't> Parser<'r, 't> {
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_block_name_internal r
//@methods trim
//@sub `collect_text_keep(self, self.rule(), &[$C], &[], Some(kind),).map(|(name, last)| { $BODY })` => `let vf_rule = self.rule(); let vf_c = [$C]; let vf_n: [ParseCondition; 0] = []; let (name, last) = collect_text_keep(self, vf_rule, &vf_c, &vf_n, Some(kind))?; $BODY`
//@sub `(name, in_head)` => `Ok((name, in_head))`
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH,
    ensures final(self).read(old(self)),
        match r { Ok(o) => names_one(old(self), o.0@, o.1, final(self)), Err(_) => true },
//@pre
    let ghost p0 = *self;
//@at 0 `let name`
    let ghost name0 = name@;
//@at 0 `let in_head`
    let ghost mut n: int = 0;
    proof {
        assert(vf_c@ =~= head_ends());
        assert(vf_n@ =~= Seq::<ParseCondition>::empty());
        let job = Job { from: p0, close: vf_c@, invalid: vf_n@ };
        n = choose|n: int| #![trigger text_upto(job, n)] text_upto(job, n) && *last == p0.ahead()[n] && name0 == run_on(p0.ahead().take(n))
                && self.remaining@.len() == (if n < p0.remaining@.len() { p0.remaining@.len() - n - 1 } else { 0 });
        assert(text_upto(job, n));
        assert(any_at(head_ends(), p0.ahead(), n));
        let k = choose|k: int| 0 <= k < head_ends().len() && holds_at(#[trigger] head_ends()[k], p0.ahead(), n);
        assert(holds_at(head_ends()[k], p0.ahead(), n));
    }
//@at 0 `Ok((name, in_head))`
    proof { assert(names_it(&p0, n, name@, in_head, &*self)); }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_block_name r
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH,
    ensures final(self).read(old(self)),
        match r { Ok(o) => exists|q: Parser<'r, 't>| q.read(old(self)) && #[trigger] names_one(&q, o.0@, o.1, final(self)), Err(_) => true },
//@pre
    broadcast use reading;
    let ghost p0 = *self;
    proof { from_refl(&p0); }
//@at 0 `self.get_block_name_internal`
    let ghost p1 = *self;
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_end_block r
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH,
    ensures final(self).read(old(self)),
        match r { Ok(name) => ends_named(old(self), name@, final(self)), Err(_) => true },
//@pre
    broadcast use reading;
    let ghost p0 = *self;
    proof { from_refl(&p0); }
//@at 0 `let (name, in_head)`
    let ghost p1 = *self;
//@at 0 `if in_head`
    let ghost p2 = *self;
    let ghost q = choose|q: Parser<'r, 't>| q.read(&p1) && #[trigger] names_one(&q, name@, in_head, &p2);
    proof { from_refl(&p2); assert(names_one(&q, name@, in_head, &p2)); }
//@at 0 `Ok(name)`
    proof { assert(self.moved(&p2)); assert(end_of(&p0, &q, name@, in_head, &p2, &*self)); }
//@end
// The body of the closure.
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` verify_end_block r
//@rename vf_ends
//@methods eq_ignore_ascii_case
//@sub `self.save_evaluate_fn(|parser| { $BODY })` => `$BODY`
//@sub `name.strip_suffix('_').unwrap_or(name)` => `(match name.x_strip_suffix('_') { Some(vf_n) => { assert(vf_n@ == plain_name(name@)); vf_n }, None => { assert(name@ == plain_name(name@)); name } })`
//@sub `for end_block_name in block_rule.accepts_names` => `for end_block_name in block_rule.accepts_names.iter()`
//@sig
fn vf_ends(parser: &mut Parser<'r, 't>, first_iteration: bool, block_rule: &BlockRule) -> (r: Result<bool, ParseError>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
    ensures final(parser).read(old(parser)), r == Ok::<bool, ParseError>(true) ==> shut(old(parser), block_rule@, first_iteration, final(parser)),
//@pre
    broadcast use reading;
    let ghost p0 = *parser;
    proof { from_refl(&p0); }
//@at 0 `let name`
    let ghost p1 = *parser;
//@at 1 `let name`
    let ghost whole = name@;
    proof { reveal_strlit("_"); }
//@at 0 `return Ok(true)`
    proof { assert(eq_nocase(block_rule@.names[it.index()]@, plain_name(whole))); assert(ends_with_it(&p0, &p1, block_rule@, first_iteration, whole, &*parser)); }
//@loop 0 it
    invariant
        it.seq().len() == block_rule.accepts_names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == block_rule.accepts_names@[i],
        parser.read(&p0), ends_named(&p1, whole, &*parser), name@ == plain_name(whole), p1.read(&p0), *old(parser) == p0, p1.at(&p0) || (block_rule.accepts_newlines && !first_iteration && p0.current.token is LineBreak),
//@end
//@pin src/parsing/parser.rs `let mut parser = self.clone(); if f(&mut parser).unwrap_or(false) { let last = self.current; self.update(&parser); Some(last) } else { None }`
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` verify_end_block r
//@sub `self.save_evaluate_fn(|parser| { $BODY })` => `let mut parser = self.vf_clone(); let vf_b = vf_unwrap_or(Self::vf_ends(&mut parser, first_iteration, block_rule), false); if vf_b { let last = self.current; self.update(&parser); proof { from_refl(&parser); assert(self.moved(&parser)); still_shut(old(self), block_rule@, first_iteration, &parser, &*self); assert(self.read(old(self))); } Some(last) } else { None }`
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH,
    ensures match r {
        Some(t) => t == old(self).current && final(self).read(old(self)) && shut(old(self), block_rule@, first_iteration, final(self)),
        None => *final(self) == *old(self),
    },
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_body_generic r
//@sub `process(self)?;` => ``
//@sig
fn get_body_generic(&mut self, block_rule: &BlockRule) -> (r: Result<(&'r ExtractedToken<'t>, &'r ExtractedToken<'t>), ParseError>)
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH, block_rule@.names.len() > 0,
    ensures final(self).read(old(self)),
        match r { Ok(o) => o.0 == old(self).current && body_to(old(self), block_rule@, o.1, final(self)), Err(_) => true },
//@pre
    broadcast use reading;
    let ghost p0 = *self;
    proof { from_refl(&p0); }
//@loop 0
    invariant
        self.read(&p0), *old(self) == p0, start == p0.current, self.depth == p0.depth, p0.depth <= MAX_RECURSION_DEPTH, first ==> self.at(&p0),
    decreases self.remaining@.len(),
//@in 0
    broadcast use reading;
    let ghost p1 = *self;
//@at 0 `return Ok((start, end))`
    proof {
        let n = p0.remaining@.len() - p1.remaining@.len();
        assert(p1.ahead()[0] == p0.ahead()[n]);
        assert(body_upto(&p0, block_rule@, n, &p1, first, &*self));
    }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_body_text r
//@sub `self.get_body_generic(block_rule, |_| Ok(()))?` => `self.get_body_generic(block_rule)?`
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH, block_rule@.names.len() > 0,
    ensures final(self).read(old(self)),
        match r { Ok(s) => body_text(old(self), block_rule@, s@, final(self)), Err(_) => true },
//@pre
    let ghost p0 = *self;
//@at 0 `let slice`
    let ghost n = choose|n: int| 0 <= n <= p0.remaining@.len() && *end == #[trigger] p0.ahead()[n] && body_ends(&p0, block_rule@, n, &*self);
    proof {
        let a = p0.ahead();
        let t = p0.full_text.text@;
        assert(*end == a[n]);
        covers_order(t, a, 0, n);
        if n > 0 { covers_text(t, a, 0, n - 1); covers_adj(t, a, n - 1); assert(a.subrange(0, n) =~= a.take(n)); }
        else { assert(a.take(0) =~= Seq::<ExtractedToken>::empty()); assert(t.subrange(ci(t, a[0].span.start as nat) as int, ci(t, a[0].span.start as nat) as int) =~= run_on(a.take(0))); }
    }
//@at 0 `Ok(slice)`
    proof { assert(text_is(&p0, block_rule@, n, slice@, &*self)); }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_body_elements_paragraphs r
//@sub `Some(move |parser: &mut Parser<'r, 't>| { $B }),` => `Some(Ends { first, block_rule }),`
//@sig
fn get_body_elements_paragraphs(&mut self, block_rule: &BlockRule) -> (r: ParseResult<'r, 't, Vec<Element<'t>>>)
//@spec
    requires old(self).ready(),
    ensures final(self).went(old(self)), r.is_ok() ==> final(self).depth == old(self).depth && r->Ok_0.paragraph_safe == all_inline(r->Ok_0.item@) && no_partial(r->Ok_0.item@),
        // nothing but paragraphs made here and what is there, no empty paragraph, and only inline elements in them
        r.is_ok() ==> exists|p: Seq<Piece>| all_show(r->Ok_0.item@, p) && sound(p),
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_body_elements_no_paragraphs r
//@sub `all_elements.extend(elements);` => `vf_extend(&mut all_elements, elements);`
//@sub `let elements = consume(self)?.chain(` => `let vf_o = consume(self)?; let elements = vf_o.chain(`
//@sub `ok!(paragraph_safe; all_elements, all_errors)` => `Ok(ParseSuccess::new(all_elements, all_errors, paragraph_safe))`
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH,
    ensures final(self).went(old(self)), r.is_ok() ==> final(self).depth == old(self).depth && final(self).kept(old(self)) && (r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@)) && taken(old(self).accepts_partial, r->Ok_0.item@),
//@pre
    let ghost p0 = *self;
    proof { from_refl(&p0); more_refl(&p0); }
//@loop 0
    invariant
        self.went(&p0), self.kept(&p0), *old(self) == p0, self.depth == p0.depth, p0.depth <= MAX_RECURSION_DEPTH, p0.wf(), paragraph_safe ==> all_inline(all_elements@), taken(p0.accepts_partial, all_elements@),
    decreases self.remaining@.len(),
//@in 0
    broadcast use running;
    let ghost p1 = *self;
    proof { ran_refl(&p1); }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_body_elements r
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH, as_paragraphs ==> old(self).accepts_partial is None,
    ensures final(self).went(old(self)),
        r.is_ok() ==> final(self).depth == old(self).depth && (r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@)) && taken(old(self).accepts_partial, r->Ok_0.item@),
        r.is_ok() && as_paragraphs ==> r->Ok_0.paragraph_safe == all_inline(r->Ok_0.item@) && exists|p: Seq<Piece>| all_show(r->Ok_0.item@, p) && sound(p),
//@end
}
pub struct Ends<'a> { pub first: bool, pub block_rule: &'a BlockRule }
impl<'r: 't, 't, 'a> Closing<'r, 't> for Ends<'a> {
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_body_elements_paragraphs r
//@rename call
//@sub `let mut first = true; gather_paragraphs(self, self.rule(), Some(move |parser: &mut Parser<'r, 't>| { $B }),)` => `$B`
//@sub `(first,` => `(self.first,`
//@sub `block_rule)` => `self.block_rule)`
//@sub `first = false` => `self.first = false`
//@sig
    fn call(&mut self, parser: &mut Parser<'r, 't>) -> (r: Result<bool, ParseError>)
//@spec
//@pre
    proof { from_refl(&*parser); }
//@end
}
pub open spec fn end_of<'r, 't>(o: &Parser<'r, 't>, s: &Parser<'r, 't>, name: Seq<char>, more: bool, t: &Parser<'r, 't>, q: &Parser<'r, 't>) -> bool {
    o.current.token is LeftBlockEnd && s.read(o) && names_one(s, name, more, t) && q.moved(t)
}
// An end token and a name.
pub open spec fn ends_named<'r, 't>(o: &Parser<'r, 't>, name: Seq<char>, q: &Parser<'r, 't>) -> bool {
    exists|s: Parser<'r, 't>, more: bool, t: Parser<'r, 't>| #[trigger] end_of(o, &s, name, more, &t, q)
}
pub open spec fn ends_with_it<'r, 't>(o: &Parser<'r, 't>, p: &Parser<'r, 't>, d: Doc, first: bool, name: Seq<char>, q: &Parser<'r, 't>) -> bool {
    p.read(o) && (p.at(o) || (d.newlines && !first && o.current.token is LineBreak)) && ends_named(p, name, q) && answers(d, plain_name(name))
}
// Here the block ends: with one of its names, after a line end if it may have one there.
pub open spec fn shut<'r, 't>(o: &Parser<'r, 't>, d: Doc, first: bool, q: &Parser<'r, 't>) -> bool {
    exists|p: Parser<'r, 't>, name: Seq<char>| #[trigger] ends_with_it(o, &p, d, first, name, q)
}
pub proof fn still_shut<'r, 't>(o: &Parser<'r, 't>, d: Doc, first: bool, q: &Parser<'r, 't>, z: &Parser<'r, 't>)
    requires shut(o, d, first, q), z.moved(q),
    ensures shut(o, d, first, z),
{
    broadcast use reading;
    let (p, name) = choose|p: Parser<'r, 't>, name: Seq<char>| #[trigger] ends_with_it(o, &p, d, first, name, q);
    let (s, more, t) = choose|s: Parser<'r, 't>, more: bool, t: Parser<'r, 't>| #[trigger] end_of(&p, &s, name, more, &t, q);
    assert(end_of(&p, &s, name, more, &t, z));
    assert(ends_with_it(o, &p, d, first, name, z));
}
pub open spec fn body_upto<'r, 't>(o: &Parser<'r, 't>, d: Doc, n: int, p: &Parser<'r, 't>, first: bool, q: &Parser<'r, 't>) -> bool {
    p.read(o) && n == o.remaining@.len() - p.remaining@.len() && (first ==> n == 0) && shut(p, d, first, q)
}
pub open spec fn body_ends<'r, 't>(o: &Parser<'r, 't>, d: Doc, n: int, q: &Parser<'r, 't>) -> bool { exists|p: Parser<'r, 't>, first: bool| #[trigger] body_upto(o, d, n, &p, first, q) }
// The body goes up to a token at which the block ends.
pub open spec fn body_to<'r, 't>(o: &Parser<'r, 't>, d: Doc, end: &ExtractedToken<'t>, q: &Parser<'r, 't>) -> bool {
    exists|n: int| 0 <= n <= o.remaining@.len() && *end == #[trigger] o.ahead()[n] && body_ends(o, d, n, q)
}
pub open spec fn text_is<'r, 't>(o: &Parser<'r, 't>, d: Doc, n: int, s: Seq<char>, q: &Parser<'r, 't>) -> bool { s == run_on(o.ahead().take(n)) && body_ends(o, d, n, q) }
// The body as it is in the source.
pub open spec fn body_text<'r, 't>(o: &Parser<'r, 't>, d: Doc, s: Seq<char>, q: &Parser<'r, 't>) -> bool { exists|n: int| #[trigger] text_is(o, d, n, s, q) }
pub broadcast proof fn moved_moved<'r, 't>(a: &Parser<'r, 't>, b: &Parser<'r, 't>, c: &Parser<'r, 't>)
    requires #[trigger] b.moved(a), #[trigger] c.moved(b),
    ensures c.moved(a),
{ from_trans(a, b, c); }
pub broadcast proof fn moved_wf<'r, 't>(a: &Parser<'r, 't>, b: &Parser<'r, 't>)
    requires a.wf(), #[trigger] b.moved(a),
    ensures b.wf(),
{ from_wf(a, b); }
pub broadcast group reading { moved_moved, moved_wf }
