// C07, C09, C01: the rules for variables and headings, and those that are never run.
//@import spans
//@use heading
//@type src/parsing/rule/impls/variable.rs RULE_VARIABLE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Variable,`
//@end
//@pin src/parsing/rule/impls/variable.rs `static VARIABLE_REGEX: Lazy<Regex> = Lazy::new(|| Regex::new(r"\{\$(.+)\}").unwrap());`
//@assume VARIABLE_REGEX, pinned by its text, captures the name between `{$` and `}` in a text of that form
#[verifier::external_body]
fn vf_variable_name(s: &str) -> (r: &str) requires var_text(s@), ensures r@ == s@.subrange(2, s@.len() - 1) { unimplemented!() }
//@fn src/parsing/rule/impls/variable.rs try_consume_fn r
//@rename variable
//@sub `VARIABLE_REGEX.captures(slice).expect("Variable regex didn't match").get(1).expect("Capture group not found").as_str()` => `vf_variable_name(slice)`
//@macros
//@spec
    requires old(parser).starts(RULE_VARIABLE),
    ensures final(parser).ruled(old(parser), r), final(parser).at(old(parser)),
        r.is_ok() && one(r) && match r->Ok_0.item@[0] { Element::Variable(x) => x@ == old(parser).current.slice@.subrange(2, old(parser).current.slice@.len() - 1), _ => false },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof {
        ran_refl(&p0);
        covers_order(p0.full_text.text@, p0.ahead(), 0, 0);
        assert(p0.ahead()[0] == *p0.current);
        reveal(shaped);
    }
//@end
//@type src/parsing/rule/impls/page.rs RULE_PAGE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Page,`
//@end
//@fn src/parsing/rule/impls/page.rs try_consume_fn r
//@rename page
//@sig
fn page<'r, 't>(parser: &mut Parser<'r, 't>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).starts(RULE_PAGE),
    ensures final(parser).ruled(old(parser), r),
//@end
//@type src/parsing/rule/impls/fallback.rs RULE_FALLBACK
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Fallback,`
//@end
//@fn src/parsing/rule/impls/fallback.rs try_consume_fn r
//@rename fallback
//@sig
fn fallback<'r, 't>(parser: &mut Parser<'r, 't>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).starts(RULE_FALLBACK),
    ensures final(parser).ruled(old(parser), r),
//@end
// -- headings --
//@type src/parsing/rule/impls/header.rs RULE_HEADER
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Header,`
//@end
pub open spec fn is_heading(e: Element) -> bool { match e { Element::Container(c) => c.ctype is Header && no_partial(c.elements@), _ => false } }
pub open spec fn heading_of(e: Element) -> Heading { e->Container_0.ctype->Header_0 }
pub open spec fn to_list(e: Element) -> bool { heading_of(e).has_toc }
// The entry of the table of contents for a heading.
pub open spec fn entry(x: (usize, String), e: Element, i: PageInfo, s: WikitextSettings) -> bool {
    x.0 == hlevel(heading_of(e).level) - 1 && x.1@ == plain(e->Container_0.elements@, i, s)
}
// What a heading token looks like.
pub proof fn mark_of(s: Seq<char>) -> (x: (nat, bool))
    requires head_text(s),
    ensures 1 <= x.0 <= 6, s == heading_mark(x.0, x.1),
{
    let listed = s.last() != '*';
    let n = if listed { s.len() } else { (s.len() - 1) as nat };
    if listed { assert(s =~= pluses(n)); } else { assert(s =~= pluses(n).push('*')); }
    (n, listed)
}
//@fn src/parsing/rule/impls/header.rs parse_heading r
//@sub `collect_container($x)?.into()` => `vf_into(collect_container($x)?)`
//@sub `step!(Token::Heading).slice.try_into().expect($m)` => `{ let vf_t = step!(Token::Heading); match Heading::try_from(vf_t.slice) { Ok(vf_h) => vf_h, Err(_) => vf_unreachable() } }`
//@macros
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is None,
    ensures final(parser).ruled(old(parser), r), final(parser).kept(old(parser)), final(parser).wf(),
        match r {
            Ok(o) => {
                let e = o.item@[0];
                let n = old(parser).table_of_contents@.len() as int;
                &&& final(parser).depth == old(parser).depth && final(parser).remaining@.len() < old(parser).remaining@.len()
                &&& o.item@.len() == 1 && is_heading(e) && !o.paragraph_safe
                // the marker, a blank, and what is up to the end of the line
                &&& nth_is(old(parser), 0, Token::Heading) && nth_is(old(parser), 1, Token::Whitespace) && enclosed(old(parser), final(parser), 2, seq![Token::InputEnd, Token::LineBreak, Token::ParagraphBreak])
                &&& old(parser).current.slice@ == heading_mark(hlevel(heading_of(e).level) as nat, to_list(e))
                // it is listed at its place, that is before those inside of it
                &&& to_list(e) ==> n < final(parser).table_of_contents@.len() && entry(final(parser).table_of_contents@[n], e, *old(parser).page_info, *old(parser).settings)
            },
            Err(e) => true,
        },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof {
        ran_refl(&p0);
        covers_order(p0.full_text.text@, p0.ahead(), 0, 0);
        assert(p0.ahead()[0] == *p0.current);
        reveal(shaped);
        if p0.current.token is Heading { let x = mark_of(p0.current.slice@); }
    }
//@at 0 `let toc_index`
    let ghost x = mark_of(p0.current.slice@);
    proof { assert(heading == Heading { level: level(x.0 as int), has_toc: x.1 }); assert(hlevel(heading.level) == x.0); }
    let ghost p1 = *parser;
    proof { enclosed_by(&p0, p1, 2, seq![Token::InputEnd, Token::LineBreak, Token::ParagraphBreak]); }
//@at 0 `if heading.has_toc`
    let ghost e = elements@[0];
    let ghost p2 = *parser;
    proof { assert(is_heading(e) && heading_of(e) == heading); }
//@end
// The headings are listed in this order.
pub open spec fn filed(es: Seq<Element>, toc: Seq<(usize, String)>, from: int, at: Seq<int>, i: PageInfo, s: WikitextSettings) -> bool {
    &&& at.len() == es.len()
    &&& forall|k: int| 0 <= k < es.len() ==> from <= #[trigger] at[k] <= toc.len() && is_heading(es[k]) && (to_list(es[k]) ==> at[k] < toc.len() && entry(toc[at[k]], es[k], i, s))
    &&& forall|j: int, k: int| 0 <= j < k < es.len() ==> #[trigger] at[j] <= #[trigger] at[k] && (to_list(es[j]) ==> at[j] < at[k])
}
pub open spec fn all_filed(es: Seq<Element>, toc: Seq<(usize, String)>, from: int, i: PageInfo, s: WikitextSettings) -> bool { exists|at: Seq<int>| filed(es, toc, from, at, i, s) }
proof fn more_filed(es: Seq<Element>, toc: Seq<(usize, String)>, from: int, at: Seq<int>, i: PageInfo, s: WikitextSettings, e: Element, more: Seq<(usize, String)>)
    requires filed(es, toc, from, at, i, s), 0 <= from <= toc.len(), toc.is_prefix_of(more), is_heading(e), to_list(e) ==> toc.len() < more.len() && entry(more[toc.len() as int], e, i, s),
    ensures filed(es.push(e), more, from, at.push(toc.len() as int), i, s),
{
    let b = at.push(toc.len() as int);
    let d = es.push(e);
    assert forall|k: int| 0 <= k < d.len() implies from <= #[trigger] b[k] <= more.len() && is_heading(d[k]) && (to_list(d[k]) ==> b[k] < more.len() && entry(more[b[k]], d[k], i, s)) by {
        if k < es.len() { assert(b[k] == at[k]); assert(d[k] == es[k]); if to_list(es[k]) { assert(more[b[k]] == toc[at[k]]); } }
    }
    assert forall|j: int, k: int| 0 <= j < k < d.len() implies #[trigger] b[j] <= #[trigger] b[k] && (to_list(d[j]) ==> b[j] < b[k]) by {
        assert(b[j] == at[j]);
        if k < es.len() { assert(b[k] == at[k]); }
    }
}
//@fn src/parsing/rule/impls/header.rs try_consume_fn r
//@rename header
//@sub `parse_heading(parser)?.into()` => `vf_into(parse_heading(parser)?)`
//@sub `success.into()` => `vf_into(success)`
//@sub `let mut all_elements: Vec<_> = elements.into_iter().collect();` => `let mut all_elements: Vec<Element<'t>> = Vec::new(); vf_extend(&mut all_elements, elements);`
//@sub `all_elements.extend(elements)` => `vf_extend(&mut all_elements, elements)`
//@sub `let sub_parser = &mut parser.clone(); match parse_heading(sub_parser) {` => `let mut vf_sub = parser.vf_clone(); let vf_result = parse_heading(&mut vf_sub); parser.vf_shared(&vf_sub); match vf_result {`
//@sub `parser.update(sub_parser)` => `parser.update(&vf_sub)`
//@macros
//@spec
    requires old(parser).starts(RULE_HEADER),
    ensures final(parser).ruled(old(parser), r),
        r.is_ok() ==> r->Ok_0.item@.len() > 0 && !r->Ok_0.paragraph_safe
            && all_filed(r->Ok_0.item@, final(parser).table_of_contents@, old(parser).table_of_contents@.len() as int, *old(parser).page_info, *old(parser).settings),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    let ghost from = p0.table_of_contents@.len() as int;
    let ghost mut at: Seq<int> = Seq::empty();
    proof { ran_refl(&p0); }
//@at 0 `loop {`
    proof {
        more_filed(Seq::empty(), p0.table_of_contents@, from, at, *p0.page_info, *p0.settings, all_elements@[0], parser.table_of_contents@);
        at = at.push(from);
        assert(all_elements@ =~= Seq::<Element>::empty().push(all_elements@[0]));
    }
//@loop 0
    invariant
        *old(parser) == p0, p0.starts(RULE_HEADER), parser.ran(&p0), parser.wf(), parser.depth == p0.depth, parser.accepts_partial is None,
        from == p0.table_of_contents@.len(), all_elements@.len() > 0,
        filed(all_elements@, parser.table_of_contents@, from, at, *p0.page_info, *p0.settings),
    decreases parser.remaining@.len(),
//@in 0
    broadcast use running;
    let ghost p1 = *parser;
    let ghost es = all_elements@;
    proof { ran_refl(&p1); }
//@at 0 `parser.discard_shared_items(mark)`
    proof { assert(parser.more_lists(&p1)); }
//@at 0 `break;`
    proof { assert(parser.at(&p1)); assert(parser.ran(&p1)); }
//@tail 0
    proof {
        let e = all_elements@.last();
        assert(all_elements@ =~= es.push(e));
        more_filed(es, p1.table_of_contents@, from, at, *p0.page_info, *p0.settings, e, parser.table_of_contents@);
        at = at.push(p1.table_of_contents@.len() as int);
        assert(vf_sub.ran(&p1));
        assert(parser.ran(&p1));
    }
//@end
