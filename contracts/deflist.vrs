// C11, C09, C01: the rules for definition lists.
//@import spans
//@type src/parsing/rule/impls/definition_list.rs RULE_DEFINITION_LIST
//@sub `try_consume_fn: parse_definition_list` => `try_consume_fn: Fun::DefinitionList`
//@end
//@type src/parsing/rule/impls/definition_list.rs RULE_DEFINITION_LIST_SKIP_NEWLINE
//@sub `try_consume_fn: skip_newline` => `try_consume_fn: Fun::DefinitionListSkip`
//@end
// White space between elements.
pub open spec fn all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
pub open spec fn white(e: Element) -> bool { match e { Element::LineBreak => true, Element::Text(x) => all_ws(x@), _ => false } }
pub open spec fn all_white(s: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> white(#[trigger] s[i]) }
// All of `s` but white space at its ends.
pub open spec fn within<'t>(s: Seq<Element<'t>>, r: Seq<Element<'t>>, a: int, b: int) -> bool {
    0 <= a <= b <= s.len() && r == s.subrange(a, b) && all_white(s.take(a)) && all_white(s.skip(b)) && (r.len() > 0 ==> !white(r[0]) && !white(r.last()))
}
pub open spec fn trimmed<'t>(s: Seq<Element<'t>>, r: Seq<Element<'t>>) -> bool { exists|a: int, b: int| within(s, r, a, b) }
#[verifier::external_body]
fn vf_all_white(s: &Cow<str>) -> (r: bool) ensures r == all_ws(s@) { unimplemented!() }
impl<'t> Element<'t> {
//@fn src/tree/element/object.rs @ `impl Element<'_>` is_whitespace r
//@sub `string.chars().all(|c| c.is_whitespace())` => `vf_all_white(string)`
//@spec
    ensures r == white(*self),
//@end
}
//@fn src/parsing/strip.rs strip_whitespace
//@sub `while let Some(element) = elements.first() { $BODY }` => `loop { match elements.first() { Some(element) => { $BODY } None => { break; } } }`
//@sub `while let Some(element) = elements.last() { $BODY }` => `loop { match elements.last() { Some(element) => { $BODY } None => { break; } } }`
//@sub `elements.pop();` => `let vf_p = elements.pop();`
//@sig
pub fn strip_whitespace(elements: &mut Vec<Element>)
//@spec
    ensures trimmed(old(elements)@, final(elements)@),
//@pre
    let ghost s = elements@;
    let ghost mut a: int = 0;
    let ghost mut b: int = s.len() as int;
    proof { assert(s.subrange(0, s.len() as int) =~= s); }
//@loop 0
    invariant
        old(elements)@ == s, 0 <= a <= s.len(), b == s.len(), elements@ == s.subrange(a, b), all_white(s.take(a)),
    ensures
        old(elements)@ == s, 0 <= a <= s.len(), b == s.len(), elements@ == s.subrange(a, b), all_white(s.take(a)), elements@.len() > 0 ==> !white(elements@[0]),
    decreases elements@.len(),
//@at 0 `elements.remove(0)`
    proof {
        assert(s.take(a + 1) =~= s.take(a).push(s[a]));
        assert(s.subrange(a, b).remove(0) =~= s.subrange(a + 1, b));
        a = a + 1;
    }
//@loop 1
    invariant
        old(elements)@ == s, 0 <= a <= b <= s.len(), elements@ == s.subrange(a, b), all_white(s.take(a)), all_white(s.skip(b)), elements@.len() > 0 ==> !white(elements@[0]),
    ensures
        old(elements)@ == s, within(s, elements@, a, b),
    decreases elements@.len(),
//@at 0 `let vf_p`
    proof {
        assert(s.skip(b - 1) =~= seq![s[b - 1]] + s.skip(b));
        assert(s.subrange(a, b).drop_last() =~= s.subrange(a, b - 1));
        b = b - 1;
    }
//@end
//@fn src/parsing/rule/impls/definition_list.rs skip_newline r
//@macros
//@sig
fn skip_newline<'r, 't>(parser: &mut Parser<'r, 't>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).starts(RULE_DEFINITION_LIST_SKIP_NEWLINE),
    ensures final(parser).ruled(old(parser), r), *final(parser) == *old(parser),
        r.is_ok() ==> r->Ok_0.item@.len() == 0 && nth_is(old(parser), 0, Token::LineBreak) && nth_is(old(parser), 1, Token::Colon) && nth_is(old(parser), 2, Token::Whitespace),
//@pre
    let ghost p0 = *parser;
    proof { ran_refl(&*parser); assert(p0.ahead()[0] == *p0.current); }
//@end
// What a line `: key : value` is read as, from the s-th token on: the b-th one ends the key, the c-th one the line.
pub open spec fn pair_at<'r, 't>(p: &Parser<'r, 't>, s: int, x: DefinitionListItem<'t>, b: int, c: int) -> bool {
    let a = p.ahead();
    &&& 0 <= s && s + 2 <= b && b + 2 <= c < a.len()
    &&& a[s].token is Colon && a[s + 1].token is Whitespace
    &&& a[b].token is Whitespace && a[b + 1].token is Colon
    &&& (a[c].token is LineBreak || a[c].token is ParagraphBreak || a[c].token is InputEnd)
    &&& x.key_string@ == trim(run_on(a.subrange(s + 2, b + 1)))
    &&& no_partial(x.key_elements@) && no_partial(x.value_elements@)
}
// What follows is passed but for the end of the input, and only a line break lets the list go on.
pub open spec fn reads<'r, 't>(p: &Parser<'r, 't>, s: int, x: (DefinitionListItem<'t>, bool), end: int) -> bool {
    exists|b: int, c: int| #[trigger] pair_at(p, s, x.0, b, c) && end == (if c < p.remaining@.len() { c + 1 } else { c }) && x.1 == !(p.ahead()[c].token is LineBreak)
}
pub open spec fn colon_at<'r, 't>(q: &Parser<'r, 't>) -> bool { q.current.token is Whitespace && q.remaining@.len() > 0 && q.remaining@[0].token is Colon }
pub open spec fn ends_line<'r, 't>(q: &Parser<'r, 't>) -> bool { q.current.token is LineBreak || q.current.token is ParagraphBreak || q.current.token is InputEnd }
pub proof fn same_at<'r, 't>(p: &Parser<'r, 't>, q: &Parser<'r, 't>)
    requires q.from(p),
    ensures *q.current == p.ahead()[p.remaining@.len() - q.remaining@.len()], q.remaining@.len() > 0 ==> q.remaining@[0] == p.ahead()[p.remaining@.len() - q.remaining@.len() + 1],
        p.ahead().len() == p.remaining@.len() + 1,
{
    assert(q.ahead()[0] == *q.current);
    if q.remaining@.len() > 0 { assert(q.ahead()[1] == q.remaining@[0]); }
}
pub broadcast proof fn stripped_whole<'t>(s: Seq<Element<'t>>, r: Seq<Element<'t>>)
    requires #[trigger] trimmed(s, r), taken(AcceptsPartial::None, s),
    ensures no_partial(r),
{
    let (a, b) = choose|a: int, b: int| within(s, r, a, b);
    assert forall|i: int| 0 <= i < r.len() implies !partial(#[trigger] r[i]) by { assert(r[i] == s[a + i]); }
}
//@fn src/parsing/rule/impls/definition_list.rs parse_item r
//@sub `let mut key_elements = collect_consume(parser, $R, &[$C], $I, None,)?.chain($y);` => `let vf_c = [$C]; let mut key_elements = (collect_consume(parser, $R, &vf_c, $I, None,)?).chain($y);`
//@sub `let (mut value_elements, last) = collect_consume_keep(parser, $R, &[$C], $I, None,)?.chain($y);` => `let vf_e = [$C]; let (mut value_elements, last) = (collect_consume_keep(parser, $R, &vf_e, $I, None,)?).chain($y);`
//@sub `ok!(false; (item, should_break), errors)` => `Ok(ParseSuccess::new((item, should_break), errors, false))`
//@sub `.trim()` => `.x_trim()`
//@macros
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is None,
    ensures final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(),
        match r {
            Ok(o) => {
                let n = old(parser).remaining@.len() - final(parser).remaining@.len();
                &&& final(parser).depth == old(parser).depth && n > 0 && old(parser).start_of_line
                &&& reads(old(parser), 0, o.item, n)
            },
            Err(e) => true,
        },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    broadcast use stripped_whole;
    proof { ran_refl(&p0); }
//@at 0 `let start_token`
    let ghost p1 = *parser;
    proof { ran_refl(&p1); }
//@at 0 `let end_token`
    let ghost p2 = *parser;
    let ghost b: int = 0;
    proof {
        assert(vf_c@[0] == ParseCondition::TokenPair(Token::Whitespace, Token::Colon));
        assert forall|q: Parser<'r, 't>| any_holds(vf_c@, &q) implies colon_at(&q) by {}
        assert(exists|q: Parser<'r, 't>| #![trigger q.ran(&p1)] q.ran(&p1) && colon_at(&q) && p2.moved(&q) && p2.remaining@.len() == q.remaining@.len() - 1);
        let q = choose|q: Parser<'r, 't>| q.ran(&p1) && colon_at(&q) && p2.moved(&q) && p2.remaining@.len() == q.remaining@.len() - 1;
        b = p0.remaining@.len() - q.remaining@.len();
        assert(p0.ahead()[0] == *p0.current && p0.ahead()[1] == p0.remaining@[0]);
        same_at(&p0, &q);
        same_at(&p0, &p2);
        same_at(&p0, &p1);
        assert(p0.ahead()[b + 1].token is Colon);
        covers_order(p0.full_text.text@, p0.ahead(), 2, b + 1);
        covers_text(p0.full_text.text@, p0.ahead(), 2, b);
        covers_adj(p0.full_text.text@, p0.ahead(), b);
    }
//@at 0 `let (mut value_elements`
    let ghost p3 = *parser;
    let ghost ks = key_elements@;
    proof { ran_refl(&p3); assert(no_partial(ks)); }
//@at 0 `let should_break`
    let ghost c: int = 0;
    proof {
        let p4 = *parser;
        assert forall|q: Parser<'r, 't>| any_holds(vf_e@, &q) implies ends_line(&q) by {}
        assert(exists|q: Parser<'r, 't>| #![trigger q.ran(&p3)] q.ran(&p3) && ends_line(&q) && last == q.current && p4.moved(&q) && p4.remaining@.len() == (if q.remaining@.len() > 0 { q.remaining@.len() - 1 } else { 0 }));
        let q = choose|q: Parser<'r, 't>| q.ran(&p3) && ends_line(&q) && last == q.current && p4.moved(&q) && p4.remaining@.len() == (if q.remaining@.len() > 0 { q.remaining@.len() - 1 } else { 0 });
        c = p0.remaining@.len() - q.remaining@.len();
        same_at(&p0, &q);
    }
//@at 0 `Ok(ParseSuccess`
    proof { let x = (item, should_break); assert(pair_at(&p0, 0, x.0, b, c)); let n = p0.remaining@.len() - parser.remaining@.len(); assert(n == (if c < p0.remaining@.len() { c + 1 } else { c })); assert(x.1 == !(p0.ahead()[c].token is LineBreak)); assert(reads(&p0, 0, x, n)); }
//@end
// The lines from the start on, each directly after the one before it; only the last may end the list.
pub open spec fn reads_all<'r, 't>(p: &Parser<'r, 't>, items: Seq<DefinitionListItem<'t>>, ends: Seq<(int, bool)>) -> bool {
    &&& items.len() == ends.len()
    &&& forall|k: int| 0 <= k < items.len() ==> reads_one(p, after(ends, k), #[trigger] items[k], ends[k].1, ends[k].0) && (ends[k].1 ==> k == items.len() - 1)
}
pub open spec fn after(ends: Seq<(int, bool)>, k: int) -> int { if k == 0 { 0 } else { ends[k - 1].0 } }
pub open spec fn reads_one<'r, 't>(p: &Parser<'r, 't>, s: int, x: DefinitionListItem<'t>, last: bool, end: int) -> bool { reads(p, s, (x, last), end) }
pub open spec fn defined<'r, 't>(p: &Parser<'r, 't>, items: Seq<DefinitionListItem<'t>>, ends: Seq<(int, bool)>, n: int) -> bool { items.len() > 0 && reads_all(p, items, ends) && after(ends, items.len() as int) == n }
pub open spec fn defining<'r, 't>(p: &Parser<'r, 't>, items: Seq<DefinitionListItem<'t>>, n: int) -> bool { exists|ends: Seq<(int, bool)>| defined(p, items, ends, n) }
pub open spec fn defines<'r, 't>(p: &Parser<'r, 't>, n: int, e: Seq<Element<'t>>) -> bool {
    e.len() == 1 && match e[0] { Element::DefinitionList(items) => defining(p, items@, n), _ => false }
}
pub proof fn reads_from<'r, 't>(p: &Parser<'r, 't>, q: &Parser<'r, 't>, x: DefinitionListItem<'t>, last: bool, n: int)
    requires q.from(p), reads(q, 0, (x, last), n), q.wf(),
    ensures reads_one(p, p.remaining@.len() - q.remaining@.len(), x, last, p.remaining@.len() - q.remaining@.len() + n),
{
    let s = p.remaining@.len() - q.remaining@.len();
    let (b, c) = choose|b: int, c: int| #[trigger] pair_at(q, 0, x, b, c) && n == (if c < q.remaining@.len() { c + 1 } else { c }) && last == !(q.ahead()[c].token is LineBreak);
    assert(q.ahead().len() == q.remaining@.len() + 1);
    assert(p.ahead().len() == p.remaining@.len() + 1);
    assert forall|i: int| 0 <= i < q.ahead().len() implies #[trigger] q.ahead()[i] == p.ahead()[s + i] by {}
    assert(q.ahead().subrange(2, b + 1) =~= p.ahead().subrange(s + 2, s + b + 1));
    assert(pair_at(p, s, x, s + b, s + c));
    let y = (x, last);
    assert(pair_at(p, s, y.0, s + b, s + c));
    assert(reads(p, s, y, s + n));
}
pub proof fn reads_more<'r, 't>(p: &Parser<'r, 't>, items: Seq<DefinitionListItem<'t>>, ends: Seq<(int, bool)>, x: DefinitionListItem<'t>, last: bool, n: int)
    requires reads_all(p, items, ends), reads_one(p, after(ends, items.len() as int), x, last, n), items.len() > 0 ==> !ends.last().1,
    ensures reads_all(p, items.push(x), ends.push((n, last))),
{
    hide(reads_one);
    let i2 = items.push(x);
    let e2 = ends.push((n, last));
    assert forall|k: int| 0 <= k < i2.len() implies reads_one(p, after(e2, k), #[trigger] i2[k], e2[k].1, e2[k].0) && (e2[k].1 ==> k == i2.len() - 1) by {
        if k > 0 { assert(e2[k - 1] == ends[k - 1]); }
        assert(after(e2, k) == after(ends, k));
        if k < items.len() {
            assert(i2[k] == items[k]); assert(e2[k] == ends[k]);
            assert(reads_one(p, after(ends, k), items[k], ends[k].1, ends[k].0) && (ends[k].1 ==> k == items.len() - 1));
            if ends[k].1 { assert(ends[k] == ends.last()); }
        } else { assert(i2[k] == x); assert(e2[k] == (n, last)); }
    }
}
//@fn src/parsing/rule/impls/definition_list.rs parse_definition_list r
//@rename definition_list
//@sub `parse_item(parser)?.chain($y)` => `(parse_item(parser)?).chain($y)`
//@sub `let sub_parser = &mut parser.clone(); match parse_item(sub_parser) {` => `let mut vf_sub = parser.vf_clone(); let vf_result = parse_item(&mut vf_sub); parser.vf_shared(&vf_sub); match vf_result {`
//@sub `ok!(Element::DefinitionList(items), errors)` => `let vf_e = Element::DefinitionList(items); ok!(vf_e, errors)`
//@sub `parser.update(sub_parser)` => `parser.update(&vf_sub)`
//@macros
//@spec
    requires old(parser).starts(RULE_DEFINITION_LIST),
    ensures final(parser).ruled(old(parser), r),
        r.is_ok() ==> !r->Ok_0.paragraph_safe && defines(old(parser), old(parser).remaining@.len() - final(parser).remaining@.len(), r->Ok_0.item@),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    let ghost mut ends: Seq<(int, bool)> = Seq::empty();
    let ghost none: Seq<DefinitionListItem<'t>> = Seq::empty();
    proof { ran_refl(&p0); }
//@at 0 `items.push(item)`
    proof {
        let n = p0.remaining@.len() - parser.remaining@.len();
        reads_from(&p0, &p0, item, at_end, n);
        reads_more(&p0, none, ends, item, at_end, n);
        assert(items@ =~= none);
        ends = ends.push((n, at_end));
    }
//@loop 0
    invariant_except_break
        !ends.last().1,
    invariant
        *old(parser) == p0, p0.starts(RULE_DEFINITION_LIST), parser.ran(&p0), parser.wf(), parser.depth == p0.depth, parser.accepts_partial is None,
        items@.len() > 0, reads_all(&p0, items@, ends), ends.last().0 == p0.remaining@.len() - parser.remaining@.len(),
    decreases parser.remaining@.len(),
//@in 0
    broadcast use running;
    let ghost p1 = *parser;
    proof { ran_refl(&p1); }
//@at 1 `items.push(item)`
    proof {
        let m = p1.remaining@.len() - vf_sub.remaining@.len();
        let n = p0.remaining@.len() - vf_sub.remaining@.len();
        reads_from(&p0, &p1, item, at_end, m);
        reads_more(&p0, items@, ends, item, at_end, n);
        ends = ends.push((n, at_end));
    }
//@past 0 `parser.update(&vf_sub);`
    proof { assert(vf_sub.ran(&p1)); assert(parser.ran(&p1)); }
//@at 0 `parser.discard_shared_items(mark)`
    proof { assert(parser.more_lists(&p1)); }
//@past 0 `parser.discard_shared_items(mark);`
    proof { assert(parser.at(&p1)); assert(parser.ran(&p1)); }
//@at 0 `let vf_e`
    let ghost n = p0.remaining@.len() - parser.remaining@.len();
    let ghost its = items;
    proof { assert(defined(&p0, its@, ends, n)); assert(defining(&p0, its@, n)); }
//@at 0 `vf_ok(`
    proof { let e = seq![vf_e]; assert(e[0] == Element::DefinitionList(its)); assert(defines(&p0, n, e)); }
//@end
