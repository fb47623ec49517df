// C09, C11, C28, C01: trying a rule, and turning tokens into elements.
//@import parser
//@use results
impl<'r, 't> Parser<'r, 't> {
    // What a rule may do to the parser it is run on.
    pub open spec fn ran(&self, o: &Self) -> bool { self.from(o) && self.same_job(o) && self.more_lists(o) }
    // What stays as it was when a rule has been run.
    pub open spec fn kept(&self, o: &Self) -> bool { self.same_job(o) && self.rule == o.rule && self.accepts_partial == o.accepts_partial && self.outer_partial == o.outer_partial }
    // Nothing has happened to the parser.
    pub open spec fn untouched(&self, o: &Self) -> bool {
        self.at(o) && self.same_job(o) && self.same_lists(o) && self.same_flags(o) && self.depth == o.depth && self.start_of_line == o.start_of_line
    }
    // Where a rule's function is started, ...
    pub open spec fn starts(&self, rule: Rule) -> bool {
        &&& self.wf() && self.depth <= MAX_RECURSION_DEPTH && self.accepts_partial is None
        &&& fits(rule.try_consume_fn, self.current.token)
        &&& rule.position is StartOfLine || lined(rule.try_consume_fn) ==> self.start_of_line
    }
    // ... and what it does: it moves on in the tokens if at all, and only adds to the lists.
    pub open spec fn ruled(&self, o: &Self, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
        &&& self.ran(o)
        &&& r.is_ok() && r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@)
    }
}
// Unit dispatch proves this of the function of every rule.
//@assume every rule function returns (their loops end, as proved; they only come back to themselves through consume(), which bounds how deep that goes)
#[verifier::external_body]
pub fn vf_rule_fn<'r, 't>(rule: Rule, parser: &mut Parser<'r, 't>) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires old(parser).starts(rule),
    ensures final(parser).ruled(old(parser), r),
{ unimplemented!() }
// A rule whose function counts on it is only tried at the start of a line.
pub open spec fn placed(rule: Rule) -> bool { lined(rule.try_consume_fn) ==> rule.position is StartOfLine }
pub uninterp spec fn rules_of(t: Token) -> Seq<Rule>;
#[verifier::external_body]
pub fn get_rules_for_token(current: &ExtractedToken) -> (r: Vec<Rule>)
    ensures r@ == rules_of(current.token),
        // proved of the map in unit dispatch
        forall|i: int| 0 <= i < r@.len() ==> fits((#[trigger] r@[i]).try_consume_fn, current.token) && placed(r@[i]),
{ unimplemented!() }
pub proof fn more_refl(a: &Parser) ensures a.more_lists(a) { }
pub proof fn more_trans(a: &Parser, b: &Parser, c: &Parser)
    requires b.more_lists(a), c.more_lists(b),
    ensures c.more_lists(a),
{
    assert(a.table_of_contents@.is_prefix_of(c.table_of_contents@));
    assert(a.html_blocks@.is_prefix_of(c.html_blocks@));
    assert(a.code_blocks@.is_prefix_of(c.code_blocks@));
    assert(a.footnotes@.is_prefix_of(c.footnotes@));
    assert(a.bibliographies.0@.is_prefix_of(c.bibliographies.0@));
}
impl<'t> ParseSuccess<'_, 't, Elements<'t>> {
//@fn src/parsing/result.rs @ `impl<'t> ParseSuccess<'_, 't, Elements<'t>>` check_partials r
//@sub `for element in &self.item` => `for element in vf_elements(&self.item).iter()`
//@spec
    ensures r.is_ok() == taken(parser.accepts_partial, self.item@),
//@loop 0 it
    invariant
        it.seq().len() == self.item@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.item@[i],
        forall|i: int| 0 <= i < it.index() ==> match #[trigger] self.item@[i] { Element::Partial(p) => takes(parser.accepts_partial, p), _ => true },
//@in 0
    proof { assert(*element == self.item@[it.index()]); }
//@end
}
#[verifier::external_body]
pub fn vf_elements<'a, 't>(e: &'a Elements<'t>) -> (r: &'a [Element<'t>]) ensures r@ == e@ { unimplemented!() }
// The body of the closure given to and_then.
//@fn src/parsing/rule/mod.rs @ `impl Rule` try_consume r
//@rename vf_checked
//@sub `match self.position { $M } let mark = $m; let mut sub_parser = $p; let result = (self.try_consume_fn)(&mut sub_parser).and_then(|output| { $BODY }); match result { $R } result` => `$BODY`
//@sig
pub fn vf_checked<'r, 't>(parser: &Parser<'r, 't>, output: ParseSuccess<'r, 't, Elements<'t>>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    ensures match r { Ok(o) => o == output && taken(parser.accepts_partial, output.item@), Err(e) => !taken(parser.accepts_partial, output.item@) },
//@end
impl Rule {
//@fn src/parsing/rule/mod.rs @ `impl Rule` try_consume r
//@sub `(self.try_consume_fn)(&mut sub_parser).and_then(|output| { $BODY });` => `match vf_rule_fn(self, &mut sub_parser) { Ok(vf_o) => vf_checked(parser, vf_o), Err(vf_e) => Err(vf_e) }; parser.vf_shared(&sub_parser);`
//@spec
    requires old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).wf(), fits(self.try_consume_fn, old(parser).current.token), placed(self),
    ensures
        match r {
            // a success leaves the parser where the rule has got to
            Ok(o) => taken(old(parser).accepts_partial, o.item@) && final(parser).ran(old(parser)) && final(parser).kept(old(parser)) && final(parser).depth == old(parser).depth,
            // a failure leaves no trace
            Err(e) => final(parser).untouched(old(parser)),
        },
        r.is_ok() && r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@),
        self.position is StartOfLine && !old(parser).start_of_line ==> r.is_err(),
//@pre
    let ghost p0 = *parser;
    proof { from_refl(&p0); }
//@at 0 `match result`
    let ghost p1 = *parser;
    proof { assert(p1.more_lists(&p0)); }
//@end
}
//@fn src/parsing/consume.rs consume r
//@sub `for &rule in get_rules_for_token(current)` => `let vf_rules = get_rules_for_token(current); for &rule in vf_rules.iter()`
//@sub `mem::drop(all_errors);` => ``
//@sub `text!(current.slice)` => `Element::Text(Cow::Borrowed(current.slice))`
//@sub `ok!(element, all_errors)` => `vf_ok(element, all_errors)`
//@sub `RULE_FALLBACK` => `vf_rule_fallback()`
//@spec
    requires old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).wf(),
    ensures
        final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(),
        match r {
            // something is made of at least one token, ...
            Ok(o) => final(parser).remaining@.len() < old(parser).remaining@.len() && final(parser).depth == old(parser).depth
                && taken(old(parser).accepts_partial, o.item@),
            // ... except at the end of the input or when nested too deeply
            Err(e) => e.kind == ParseErrorKind::RecursionDepthExceeded || (e.kind == ParseErrorKind::EndOfInput && old(parser).remaining@.len() == 0),
        },
        r.is_ok() && r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@),
        final(parser).depth <= old(parser).depth + 1,
        r.is_err() && old(parser).remaining@.len() > 0 ==> final(parser).same_lists(old(parser)),
        // a token nothing matches is shown as its text
        r.is_ok() && rules_of(old(parser).current.token).len() == 0
            ==> r->Ok_0.item@.len() == 1 && r->Ok_0.item@[0] is Text && r->Ok_0.item@[0]->Text_0@ == old(parser).current.slice@
                && final(parser).remaining@.len() == old(parser).remaining@.len() - 1 && final(parser).same_lists(old(parser)),
//@pre
    let ghost p0 = *parser;
    proof { from_refl(&p0); more_refl(&p0); }
//@at 0 `let mut all_errors`
    let ghost p1 = *parser;
    proof { from_refl(&p1); }
//@at 0 `let old_remaining`
    let ghost p2 = *parser;
    proof {
        assert(p2.ahead() =~= p0.ahead());
        assert forall|b: Parser| #![trigger b.ran(&p2)] b.ran(&p2) implies b.ran(&p0) && b.wf() by { from_wf(&p0, &b); }
    }
//@at 0 `if parser.same_pointer(old_remaining)`
    let ghost p3 = *parser;
    proof {
        assert(p3.ran(&p2));
        assert(p3.ran(&p0));
        assert(p3.depth == p1.depth);
        assert forall|b: Parser| #![trigger b.moved(&p3)] b.moved(&p3) implies b.ran(&p0) by { from_trans(&p0, &p3, &b); }
    }
//@at 0 `return Ok(output)`
    proof { assert(parser.ran(&p0)); }
//@loop 0 it
    invariant
        it.seq().len() == vf_rules@.len(), vf_rules@ == rules_of(p0.current.token),
        parser.untouched(&p1), p0.wf(), *old(parser) == p0, p0.depth < MAX_RECURSION_DEPTH, p1 == (Parser { depth: (p0.depth + 1) as usize, ..p0 }), p1.depth <= MAX_RECURSION_DEPTH, current == p0.current,
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vf_rules@[i],
        forall|i: int| 0 <= i < vf_rules@.len() ==> fits((#[trigger] vf_rules@[i]).try_consume_fn, current.token) && placed(vf_rules@[i]),
//@in 0
    proof { assert(fits(vf_rules@[it.index()].try_consume_fn, current.token) && placed(vf_rules@[it.index()])); assert(parser.ahead() == p0.ahead()); assert(parser.wf()); }
//@end
