// C09, C11, C23, C01: gathering what stands up to a closing condition.
//@import paragraphs
// What is gathered, and up to where.
pub struct Job<'r, 't> { pub from: Parser<'r, 't>, pub close: Seq<ParseCondition>, pub invalid: Seq<ParseCondition> }
// What is done at each token which is no end: a closure in the code.
pub trait Process<'r, 't>: Sized {
    // What holds when having come from the start to `here`
    spec fn inv(&self, job: Job<'r, 't>, here: Parser<'r, 't>, safe: bool, errors: Seq<ParseError>) -> bool;
    spec fn fails(&self, e: ParseError) -> bool;
    fn call(&mut self, parser: &mut Parser<'r, 't>, Ghost(job): Ghost<Job<'r, 't>>, Ghost(safe): Ghost<bool>, Ghost(errors): Ghost<Seq<ParseError>>) -> (r: ParseResult<'r, 't, ()>)
        requires
            old(self).inv(job, *old(parser), safe, errors), old(parser).wf(), old(parser).ran(&job.from), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).remaining@.len() > 0,
            !any_holds(job.close, old(parser)), !any_holds(job.invalid, old(parser)),
        ensures
            final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(),
            match r {
                // the invariant has to hold where the gathering goes on: here, or a token on if nothing has moved
                Ok(o) => final(parser).depth == old(parser).depth
                    && forall|q: Parser<'r, 't>| #![trigger q.moved(final(parser))] q.moved(final(parser)) && q.remaining@.len() == (if final(parser).remaining@.len() == old(parser).remaining@.len() { final(parser).remaining@.len() - 1 } else { final(parser).remaining@.len() as int })
                        ==> final(self).inv(job, q, safe && o.paragraph_safe, errors + o.errors@),
                Err(e) => final(self).fails(e),
            };
}
pub open spec fn stopped<'r, 't>(job: Job<'r, 't>, kind: Option<ParseErrorKind>, here: &Parser<'r, 't>, e: ParseError) -> bool {
    !any_holds(job.close, here) && if any_holds(job.invalid, here) { e.kind == match kind { Some(k) => k, None => ParseErrorKind::RuleFailed } } else { here.remaining@.len() == 0 && e.kind == ParseErrorKind::EndOfInput }
}
//@fn src/parsing/collect/generic.rs collect r
//@sub `process(parser)?.chain(&mut errors, &mut paragraph_safe);` => `let vf_done = process.call(parser, Ghost(job), Ghost(paragraph_safe), Ghost(errors@))?; vf_done.chain(&mut errors, &mut paragraph_safe);`
//@sub `ok!(paragraph_safe; last, errors)` => `Ok(ParseSuccess::new(last, errors, paragraph_safe))`
//@sig
pub fn collect<'r, 't, F: Process<'r, 't>>(parser: &mut Parser<'r, 't>, rule: Rule, close_conditions: &[ParseCondition], invalid_conditions: &[ParseCondition], error_kind: Option<ParseErrorKind>, process: &mut F) -> (r: ParseResult<'r, 't, &'r ExtractedToken<'t>>)
//@spec
    requires
        old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
        old(process).inv(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, *old(parser), true, Seq::empty()),
    ensures
        final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(),
        match r {
            // the end is the first place where a closing condition holds, and is passed unless it is the end of the input
            Ok(o) => final(parser).depth == old(parser).depth
                && exists|q: Parser<'r, 't>| #![trigger final(process).inv(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, q, o.paragraph_safe, o.errors@)]
                    final(process).inv(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, q, o.paragraph_safe, o.errors@)
                    && q.ran(old(parser)) && any_holds(close_conditions@, &q) && o.item == q.current && final(parser).moved(&q)
                    && final(parser).remaining@.len() == (if q.remaining@.len() > 0 { q.remaining@.len() - 1 } else { 0 }),
            Err(e) => final(process).fails(e) || stopped(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, error_kind, final(parser), e)
                && exists|vf_s: bool, vf_e: Seq<ParseError>| #[trigger] final(process).inv(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, *final(parser), vf_s, vf_e),
        },
//@pre
    let ghost p0 = *parser;
    let ghost job = Job { from: *parser, close: close_conditions@, invalid: invalid_conditions@ };
    proof { from_refl(&p0); more_refl(&p0); }
//@loop 0
    invariant
        *old(parser) == p0, job == (Job { from: p0, close: close_conditions@, invalid: invalid_conditions@ }),
        parser.ran(&p0), parser.kept(&p0), parser.wf(), parser.depth == p0.depth, p0.depth <= MAX_RECURSION_DEPTH,
        process.inv(job, *parser, paragraph_safe, errors@),
    decreases parser.remaining@.len(),
//@in 0
    let ghost p1 = *parser;
    let ghost safe1 = paragraph_safe;
    proof {
        from_refl(&p1); more_refl(&p1);
        assert forall|b: Parser| #![trigger b.moved(&p1)] b.moved(&p1) implies b.ran(&p0) && b.wf() by { from_trans(&p0, &p1, &b); from_wf(&p1, &b); more_trans(&p0, &p1, &b); }
        assert forall|b: Parser| #![trigger b.ran(&p1)] b.ran(&p1) implies b.ran(&p0) by { from_trans(&p0, &p1, &b); more_trans(&p0, &p1, &b); }
    }
//@at 0 `return Ok`
    proof { assert(parser.moved(&p1)); assert(process.inv(job, p1, paragraph_safe, errors@)); }
//@at 0 `if parser.same_pointer`
    let ghost p2 = *parser;
    proof {
        assert(p2.ran(&p1));
        from_refl(&p2); more_refl(&p2);
        assert(p2.moved(&p2));
        from_wf(&p1, &p2);
        assert forall|b: Parser| #![trigger b.moved(&p2)] b.moved(&p2) implies b.ran(&p0) && b.wf() by { from_trans(&p0, &p2, &b); from_wf(&p2, &b); more_trans(&p0, &p2, &b); }
    }
//@end
pub open spec fn holds_at(c: ParseCondition, a: Toks, i: int) -> bool {
    match c {
        ParseCondition::CurrentToken(t) => a[i].token == t,
        ParseCondition::TokenPair(t, u) => a[i].token == t && i + 1 < a.len() && a[i + 1].token == u,
    }
}
pub open spec fn any_at(c: Seq<ParseCondition>, a: Toks, i: int) -> bool { exists|k: int| 0 <= k < c.len() && holds_at(#[trigger] c[k], a, i) }
pub proof fn any_same<'r, 't>(c: Seq<ParseCondition>, o: &Parser<'r, 't>, p: &Parser<'r, 't>)
    requires p.from(o),
    ensures any_holds(c, p) == any_at(c, o.ahead(), o.remaining@.len() - p.remaining@.len()), *p.current == o.ahead()[o.remaining@.len() - p.remaining@.len()],
{
    let n = o.remaining@.len() - p.remaining@.len();
    assert(p.ahead()[0] == o.ahead()[n]);
    if p.remaining@.len() > 0 { assert(p.ahead()[1] == p.remaining@[0]); assert(p.ahead()[1] == o.ahead()[n + 1]); }
    assert(o.ahead().len() == o.remaining@.len() + 1);
    assert forall|k: int| 0 <= k < c.len() implies holds(#[trigger] c[k], p) == holds_at(c[k], o.ahead(), n) by {}
}
pub fn vf_nothing<'r, 't>() -> (r: ParseResult<'r, 't, ()>)
    ensures r.is_ok(), r->Ok_0.errors@ == Seq::<ParseError>::empty(), r->Ok_0.paragraph_safe,
{ Ok(ParseSuccess::new((), Vec::new(), true)) }
// The token before where f is meets a closing condition, or f is at the end and the end does.
pub open spec fn closed(c: Seq<ParseCondition>, p: &Parser, f: &Parser) -> bool {
    let n = p.remaining@.len() - f.remaining@.len();
    (n > 0 && any_at(c, p.ahead(), n - 1)) || (f.remaining@.len() == 0 && any_at(c, p.ahead(), n))
}
// Text is taken in as it is.
pub struct Ingest<'r, 't> { pub end: Option<&'r ExtractedToken<'t>> }
pub open spec fn is_text<'r, 't>(job: Job<'r, 't>, i: int) -> bool { !any_at(job.close, job.from.ahead(), i) && !any_at(job.invalid, job.from.ahead(), i) }
pub open spec fn all_text<'r, 't>(job: Job<'r, 't>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] is_text(job, i) }
impl<'r, 't> Process<'r, 't> for Ingest<'r, 't> {
    open spec fn inv(&self, job: Job<'r, 't>, here: Parser<'r, 't>, safe: bool, errors: Seq<ParseError>) -> bool {
        let n = job.from.remaining@.len() - here.remaining@.len();
        &&& here.moved(&job.from) && errors.len() == 0
        &&& all_text(job, n)
        &&& match self.end { None => n == 0, Some(e) => n > 0 && *e == job.from.ahead()[n - 1] }
    }
    open spec fn fails(&self, e: ParseError) -> bool { false }
//@fn src/parsing/collect/text.rs collect_text_keep r
//@rename call
//@sub `let (start, mut end) = $Z; let (last, errors, _) = collect(parser, rule, close_conditions, invalid_conditions, error_kind, |parser| { end = $x; ok!(true; ()) },)?.into(); $B Ok((slice, last))` => `self.end = $x; vf_nothing()`
//@sig
    fn call(&mut self, parser: &mut Parser<'r, 't>, Ghost(job): Ghost<Job<'r, 't>>, Ghost(safe): Ghost<bool>, Ghost(errors): Ghost<Seq<ParseError>>) -> (r: ParseResult<'r, 't, ()>)
//@spec
//@pre
    let ghost p0 = *parser;
    proof {
        from_refl(&p0); more_refl(&p0);
        any_same(job.close, &job.from, &p0);
        any_same(job.invalid, &job.from, &p0);
        assert forall|q: Parser<'r, 't>| #![trigger q.moved(&p0)] q.moved(&p0) implies q.moved(&job.from) by { from_trans(&job.from, &p0, &q); }
        let n = job.from.remaining@.len() - p0.remaining@.len();
        assert(all_text(job, n));
        assert(is_text(job, n));
        assert(all_text(job, n + 1));
        assert(errors + Seq::<ParseError>::empty() =~= Seq::<ParseError>::empty());
    }
//@end
}
//@fn src/parsing/collect/text.rs collect_text_keep r
//@sub `collect(parser, rule, close_conditions, invalid_conditions, error_kind, |parser| { end = $x; ok!(true; ()) },)?.into();` => `{ let mut vf_p = Ingest { end: None }; let vf_r = collect(parser, rule, close_conditions, invalid_conditions, error_kind, &mut vf_p)?; end = vf_p.end; vf_into(vf_r) };`
//@sub `let (start, mut end) = (parser.current(), None);` => `let start = parser.current(); let mut end = None;`
//@sig
pub fn collect_text_keep<'r: 't, 't>(parser: &mut Parser<'r, 't>, rule: Rule, close_conditions: &[ParseCondition], invalid_conditions: &[ParseCondition], error_kind: Option<ParseErrorKind>) -> (r: Result<(&'t str, &'r ExtractedToken<'t>), ParseError>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
    ensures
        final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(), final(parser).moved(old(parser)),
        match r {
            // the text of all tokens before the first one at which a closing condition holds, as it is in the source
            Ok(o) => final(parser).moved(old(parser)) && exists|n: int| #![trigger text_upto(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, n)]
                text_upto(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, n)
                && *o.1 == old(parser).ahead()[n] && o.0@ == run_on(old(parser).ahead().take(n))
                && final(parser).remaining@.len() == (if n < old(parser).remaining@.len() { old(parser).remaining@.len() - n - 1 } else { 0 }),
            Err(e) => stopped(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, error_kind, final(parser), e),
        },
//@pre
    let ghost p0 = *parser;
    let ghost job = Job { from: *parser, close: close_conditions@, invalid: invalid_conditions@ };
    proof { from_refl(&p0); more_refl(&p0); }
//@at 0 `let slice`
    let ghost p1 = *parser;
    let ghost n: int = 0;
    proof {
        let vf = Ingest { end };
        assert(exists|q: Parser<'r, 't>| vf.inv(job, q, true, errors@) && q.ran(&p0) && any_holds(close_conditions@, &q) && last == q.current && p1.moved(&q)
            && p1.remaining@.len() == (if q.remaining@.len() > 0 { q.remaining@.len() - 1 } else { 0 }));
        let q = choose|q: Parser<'r, 't>| vf.inv(job, q, true, errors@) && q.ran(&p0) && any_holds(close_conditions@, &q) && last == q.current && p1.moved(&q)
            && p1.remaining@.len() == (if q.remaining@.len() > 0 { q.remaining@.len() - 1 } else { 0 });
        n = p0.remaining@.len() - q.remaining@.len();
        any_same(job.close, &p0, &q);
        from_trans(&p0, &q, &p1);
        assert(text_upto(job, n));
        if n > 0 {
            covers_order(p0.full_text.text@, p0.ahead(), 0, n - 1);
            covers_text(p0.full_text.text@, p0.ahead(), 0, n - 1);
            assert(p0.ahead().subrange(0, n) =~= p0.ahead().take(n));
        } else { assert(p0.ahead().take(n) =~= Seq::<ExtractedToken>::empty()); reveal_strlit(""); }
    }
//@end
// The first n tokens are text, and a closing condition holds at the next one.
pub open spec fn text_upto<'r, 't>(job: Job<'r, 't>, n: int) -> bool { 0 <= n <= job.from.remaining@.len() && all_text(job, n) && any_at(job.close, job.from.ahead(), n) }
//@fn src/parsing/collect/text.rs collect_text r
//@sub `collect_text_keep($x).map(|(slice, _)| slice)` => `match collect_text_keep($x) { Ok((slice, _)) => Ok(slice), Err(vf_e) => Err(vf_e) }`
//@sig
pub fn collect_text<'r: 't, 't>(parser: &mut Parser<'r, 't>, rule: Rule, close_conditions: &[ParseCondition], invalid_conditions: &[ParseCondition], error_kind: Option<ParseErrorKind>) -> (r: Result<&'t str, ParseError>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
    ensures
        final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(), final(parser).moved(old(parser)),
        match r {
            Ok(o) => final(parser).moved(old(parser)) && exists|n: int| #![trigger text_upto(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, n)]
                text_upto(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, n)
                && o@ == run_on(old(parser).ahead().take(n))
                && final(parser).remaining@.len() == (if n < old(parser).remaining@.len() { old(parser).remaining@.len() - n - 1 } else { 0 }),
            Err(e) => stopped(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, error_kind, final(parser), e),
        },
//@end
// Elements are made of what is there.
pub struct Consuming<'t> { pub all_elements: Vec<Element<'t>> }
#[verifier::external_body]
pub fn vf_extend<'t>(v: &mut Vec<Element<'t>>, e: Elements<'t>) ensures final(v)@ == old(v)@ + e@ { unimplemented!() }
// ParseSuccess::map_ok() and map()
//@pin src/parsing/result.rs `Ok(self.map(f))`
//@pin src/parsing/result.rs `let new_item = f(item); ParseSuccess { item: new_item, errors, paragraph_safe, _ref_marker: PhantomData, _text_marker: PhantomData, }`
impl<'r, 't> Process<'r, 't> for Consuming<'t> {
    open spec fn inv(&self, job: Job<'r, 't>, here: Parser<'r, 't>, safe: bool, errors: Seq<ParseError>) -> bool {
        &&& here.ran(&job.from) && here.kept(&job.from) && here.depth == job.from.depth
        &&& taken(job.from.accepts_partial, self.all_elements@)
        &&& safe ==> all_inline(self.all_elements@)
    }
    open spec fn fails(&self, e: ParseError) -> bool { e.kind == ParseErrorKind::RecursionDepthExceeded }
//@fn src/parsing/collect/consume.rs collect_consume_keep r
//@rename call
//@sub `let mut all_elements = $v; let (last, errors, paragraph_safe) = collect(parser, rule, close_conditions, invalid_conditions, error_kind, |parser| consume(parser)?.map_ok(|elements| all_elements.extend(elements)),)?.into(); ok!(paragraph_safe; (all_elements, last), errors)` => `let (elements, vf_errors, vf_safe) = vf_into(consume(parser)?); vf_extend(&mut self.all_elements, elements); Ok(ParseSuccess::new((), vf_errors, vf_safe))`
//@sig
    fn call(&mut self, parser: &mut Parser<'r, 't>, Ghost(job): Ghost<Job<'r, 't>>, Ghost(safe): Ghost<bool>, Ghost(errors): Ghost<Seq<ParseError>>) -> (r: ParseResult<'r, 't, ()>)
//@spec
//@pre
    let ghost p0 = *parser;
    let ghost e0 = self.all_elements@;
//@at 0 `Ok(`
    proof {
        let p1 = *parser;
        let now = self.all_elements@;
        assert(now.len() == e0.len() + elements@.len());
        assert forall|i: int| 0 <= i < now.len() implies match #[trigger] now[i] { Element::Partial(p) => takes(job.from.accepts_partial, p), _ => true } by {
            if i < e0.len() { assert(now[i] == e0[i]); } else { assert(now[i] == elements@[i - e0.len()]); }
        }
        if safe && vf_safe {
            assert forall|i: int| 0 <= i < now.len() implies inline(#[trigger] now[i]) by {
                if i < e0.len() { assert(now[i] == e0[i]); } else { assert(now[i] == elements@[i - e0.len()]); }
            }
        }
        assert forall|q: Parser<'r, 't>| #![trigger q.moved(&p1)] q.moved(&p1) implies q.ran(&job.from) && q.kept(&job.from) by {
            from_trans(&p0, &p1, &q); from_trans(&job.from, &p0, &q); more_trans(&p0, &p1, &q); more_trans(&job.from, &p0, &q);
        }
    }
//@end
}
//@fn src/parsing/collect/consume.rs collect_consume_keep r
//@sub `let mut all_elements = $v; let (last, errors, paragraph_safe) = collect(parser, rule, close_conditions, invalid_conditions, error_kind, |parser| consume(parser)?.map_ok(|elements| all_elements.extend(elements)),)?.into();` => `let mut vf_p = Consuming { all_elements: $v }; let (last, errors, paragraph_safe) = vf_into(collect(parser, rule, close_conditions, invalid_conditions, error_kind, &mut vf_p)?); let all_elements = vf_p.all_elements;`
//@sub `ok!(paragraph_safe; (all_elements, last), errors)` => `Ok(ParseSuccess::new((all_elements, last), errors, paragraph_safe))`
//@sig
pub fn collect_consume_keep<'r, 't>(parser: &mut Parser<'r, 't>, rule: Rule, close_conditions: &[ParseCondition], invalid_conditions: &[ParseCondition], error_kind: Option<ParseErrorKind>) -> (r: ParseResult<'r, 't, (Vec<Element<'t>>, &'r ExtractedToken<'t>)>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
    ensures
        final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(),
        match r {
            Ok(o) => final(parser).depth == old(parser).depth && taken(old(parser).accepts_partial, o.item.0@) && (o.paragraph_safe ==> all_inline(o.item.0@))
                && exists|q: Parser<'r, 't>| #![trigger q.ran(old(parser))] q.ran(old(parser)) && any_holds(close_conditions@, &q) && o.item.1 == q.current && final(parser).moved(&q)
                    && final(parser).remaining@.len() == (if q.remaining@.len() > 0 { q.remaining@.len() - 1 } else { 0 })
                && closed(close_conditions@, old(parser), final(parser)),
            Err(e) => e.kind == ParseErrorKind::RecursionDepthExceeded || stopped(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, error_kind, final(parser), e),
        },
//@pre
    let ghost p0 = *parser;
    proof {
        from_refl(&*parser); more_refl(&*parser);
        assert forall|q: Parser<'r, 't>| #![trigger q.ran(&p0)] q.ran(&p0) && any_holds(close_conditions@, &q) implies any_at(close_conditions@, p0.ahead(), p0.remaining@.len() - q.remaining@.len()) by { any_same(close_conditions@, &p0, &q); }
    }
//@end
//@fn src/parsing/collect/consume.rs collect_consume r
//@sub `collect_consume_keep($x).map(|success| success.map(|(elements, _)| elements))` => `match collect_consume_keep($x) { Ok(success) => { let ((elements, _), vf_e, vf_s) = vf_into(success); Ok(ParseSuccess::new(elements, vf_e, vf_s)) } Err(vf_e) => Err(vf_e) }`
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
    ensures
        final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(),
        match r {
            Ok(o) => final(parser).depth == old(parser).depth && taken(old(parser).accepts_partial, o.item@) && (o.paragraph_safe ==> all_inline(o.item@))
                && exists|q: Parser<'r, 't>| #![trigger q.ran(old(parser))] q.ran(old(parser)) && any_holds(close_conditions@, &q) && final(parser).moved(&q)
                    && final(parser).remaining@.len() == (if q.remaining@.len() > 0 { q.remaining@.len() - 1 } else { 0 })
                && closed(close_conditions@, old(parser), final(parser)),
            Err(e) => e.kind == ParseErrorKind::RecursionDepthExceeded || stopped(Job { from: *old(parser), close: close_conditions@, invalid: invalid_conditions@ }, error_kind, final(parser), e),
        },
//@end
