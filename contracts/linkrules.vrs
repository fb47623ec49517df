// C03, C11, C15, C26: the rules for links.
//@import spans link
#[verifier::external_body]
pub fn vf_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vf_insert(s: &mut String, c: char) ensures final(s)@ == seq![c] + old(s)@ { unimplemented!() }
// The link that a rule gives.
pub open spec fn linked<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>, l: Element<'t>) -> bool { r.is_ok() && r->Ok_0.item@ == seq![l] }
pub open spec fn maybe(x: Option<Cow<str>>) -> Seq<char> { match x { Some(s) => s@, None => Seq::empty() } }
pub open spec fn is_text_label(l: LinkLabel, s: Seq<char>) -> bool { match l { LinkLabel::Text(t) => t@ == s, _ => false } }
pub open spec fn is_target(l: LinkLocation, s: Seq<char>) -> bool { match l { LinkLocation::Url(t) => t@ == s, _ => false } }
//@type src/parsing/rule/impls/url.rs RULE_URL
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Url,`
//@end
//@fn src/parsing/rule/impls/url.rs try_consume_fn r
//@rename url
//@macros
//@spec
    requires old(parser).starts(RULE_URL),
    ensures final(parser).ruled(old(parser), r), final(parser).at(old(parser)),
        r.is_ok() && one(r) && match r->Ok_0.item@[0] {
            Element::Link { ltype, link, extra, label, target } => ltype == LinkType::Direct && is_target(link, old(parser).current.slice@) && extra is None && label == LinkLabel::Url(None) && target is None,
            _ => false,
        },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/link_anchor.rs RULE_LINK_ANCHOR
//@sub `try_consume_fn,` => `try_consume_fn: Fun::LinkAnchor,`
//@end
pub open spec fn anchor_href(s: Seq<char>) -> Seq<char> { if s.len() == 0 { "javascript:;"@ } else { seq!['#'] + norm(s) } }
// A target up to a space, then a label up to `end`.
pub open spec fn labelled<'r, 't>(p: &Parser<'r, 't>, end: Token, at: Seq<char>, label: Seq<char>) -> bool {
    exists|b: int, raw: Seq<char>| #[trigger] upto(p, 1, Token::Whitespace, at, b) && #[trigger] between(p, b + 1, end, raw) && label == trim(raw)
}
pub open spec fn anchored<'r, 't>(p: &Parser<'r, 't>, href: Seq<char>, label: Seq<char>) -> bool { exists|at: Seq<char>| #[trigger] labelled(p, Token::RightBracket, at, label) && href == anchor_href(at) }
// f is where both are used up.
pub open spec fn labelled_end<'r, 't>(p: &Parser<'r, 't>, f: &Parser<'r, 't>, end: Token) -> bool { exists|b: int, at: Seq<char>| #[trigger] upto(p, 1, Token::Whitespace, at, b) && passed(p, f, b + 1, end) }
//@fn src/parsing/rule/impls/link_anchor.rs try_consume_fn r
//@rename link_anchor
//@methods trim is_empty
//@sub `url.insert(0, '#');` => `vf_insert(&mut url, '#');`
//@macros
//@spec
    requires old(parser).starts(RULE_LINK_ANCHOR),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> labelled_end(old(parser), final(parser), Token::RightBracket),
        r.is_ok() ==> one(r) && match r->Ok_0.item@[0] {
            Element::Link { ltype, link: LinkLocation::Url(u), extra, label: LinkLabel::Text(l), target } => ltype == LinkType::Anchor && extra is None && target is None
                && anchored(old(parser), u@, l@),
            _ => false,
        },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `let url = collect_text`
    let ghost p1 = *parser;
    proof { text_between(&p0, p1, 1, Token::Whitespace); }
//@at 0 `let url = if`
    let ghost at = url@;
    let ghost b = p0.remaining@.len() - parser.remaining@.len() - 1;
    proof { assert(upto(&p0, 1, Token::Whitespace, at, b)); }
//@at 0 `let label = collect_text`
    proof { assert(url@ == anchor_href(at)); text_between(&p0, *parser, b + 1, Token::RightBracket); }
//@at 0 `let label = label`
    proof { assert(between(&p0, b + 1, Token::RightBracket, label@)); assert(passed(&p0, parser, b + 1, Token::RightBracket)); }
//@at 0 `vf_ok`
    proof { assert(labelled(&p0, Token::RightBracket, at, label@)); assert(anchored(&p0, url@, label@)); }
//@end
// -- [url label] and [*url label] --
pub open spec fn valid_target(s: Seq<char>) -> bool { s.len() > 0 && (starts(s, seq!['/']) || has_known_scheme(s)) }
//@fn src/parsing/rule/impls/link_single.rs url_valid r
//@methods is_empty starts_with
//@spec
    ensures r == valid_target(url@),
//@end
// The link is to what is written, and shows its label.
pub open spec fn direct_link<'r, 't>(p: &Parser<'r, 't>, r: ParseResult<'r, 't, Elements<'t>>, to: Option<AnchorTarget>) -> bool {
    r.is_ok() ==> one(r) && match r->Ok_0.item@[0] {
        Element::Link { ltype, link: LinkLocation::Url(u), extra, label: LinkLabel::Text(l), target } => ltype == LinkType::Direct && target == to && maybe(extra) == extra_of(u@) && (extra is Some ==> extra_of(u@).len() > 0)
            && valid_target(u@) && labelled(p, Token::RightBracket, u@, l@),
        _ => false,
    }
}
pub open spec fn extra_of(s: Seq<char>) -> Seq<char> { extra(s) }
//@fn src/parsing/rule/impls/link_single.rs try_consume_link r
//@rename single
//@methods trim
//@macros
//@spec
    requires old(parser).from(p0), old(parser).ran(p0), old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).remaining@.len() == p0.remaining@.len() - 1,
    ensures final(parser).ran(old(parser)), r.is_ok() && r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@), direct_link(p0, r, target), r.is_ok() ==> labelled_end(p0, final(parser), Token::RightBracket),
//@sig
fn single<'r, 't>(parser: &mut Parser<'r, 't>, rule: Rule, target: Option<AnchorTarget>, Ghost(p0): Ghost<&Parser<'r, 't>>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@pre
    broadcast use running;
    let ghost p1 = *parser;
    proof { ran_refl(&p1); text_between(p0, p1, 1, Token::Whitespace); }
//@at 0 `if !url_valid`
    let ghost b = p0.remaining@.len() - parser.remaining@.len() - 1;
    proof { assert(upto(p0, 1, Token::Whitespace, url@, b)); }
//@at 0 `let label = collect_text`
    proof { text_between(p0, *parser, b + 1, Token::RightBracket); }
//@at 0 `let label = label`
    proof { assert(between(p0, b + 1, Token::RightBracket, label@)); assert(passed(p0, parser, b + 1, Token::RightBracket)); }
//@at 0 `vf_ok`
    proof { assert(labelled(p0, Token::RightBracket, url@, label@)); }
//@end
//@type src/parsing/rule/impls/link_single.rs RULE_LINK_SINGLE
//@sub `try_consume_fn: link,` => `try_consume_fn: Fun::LinkSingle,`
//@end
//@type src/parsing/rule/impls/link_single.rs RULE_LINK_SINGLE_NEW_TAB
//@sub `try_consume_fn: link_new_tab,` => `try_consume_fn: Fun::LinkSingleNewTab,`
//@end
//@fn src/parsing/rule/impls/link_single.rs link r
//@rename link_single
//@sub `try_consume_link(parser, $r, $t)` => `single(parser, $r, $t, Ghost(&p0))`
//@spec
    requires old(parser).starts(RULE_LINK_SINGLE),
    ensures final(parser).ruled(old(parser), r), direct_link(old(parser), r, None), r.is_ok() ==> labelled_end(old(parser), final(parser), Token::RightBracket),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/link_single.rs link_new_tab r
//@rename link_single_new_tab
//@sub `try_consume_link(parser, $r, $t)` => `single(parser, $r, $t, Ghost(&p0))`
//@spec
    requires old(parser).starts(RULE_LINK_SINGLE_NEW_TAB),
    ensures final(parser).ruled(old(parser), r), direct_link(old(parser), r, Some(AnchorTarget::NewTab)), r.is_ok() ==> labelled_end(old(parser), final(parser), Token::RightBracket),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
// -- [[[page]]], [[[page|label]]] and their starred forms --
// The text without the site and the category.
pub open spec fn stripped(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len(),
{
    let k = find(s, seq![':']);
    if k < 0 || k >= s.len() { None }
    else if k > 0 { Some(trim_start(s.skip(k + 1))) }
    else {
        let t = s.skip(1);
        let j = find(t, seq![':']);
        if j < 0 || j >= t.len() { None }
        else {
            let u = trim_start(t.skip(j + 1));
            if u.len() >= s.len() { None } else { match stripped(u) { Some(v) => Some(v), None => Some(u) } }
        }
    }
}
pub proof fn trim_start_le(s: Seq<char>)
    ensures trim_start(s).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 && is_ws(s[0]) { trim_start_le(s.skip(1)); } }
//@fn src/parsing/rule/impls/link_triple.rs strip_category r
//@sub `url.find(':').map(|idx| { $BODY })` => `match url.find(':') { Some(idx) => { Some({ $BODY }) } None => None }`
//@methods find trim_start
//@slices url
//@spec
    ensures match r { Some(t) => stripped(url@) == Some(t@), None => stripped(url@) is None },
    decreases url@.len(),
//@pre
    proof {
        let s = url@;
        find_char(s, ':'); bi_ends(s);
        let k = find(s, seq![':']);
        if k >= 0 {
            assert(s[k] == ':'); bi_step(s, k); ci_bi(s, k + 1); trim_start_le(s.skip(k + 1)); bi_mono(s, 0, k);
            let t = s.skip(1);
            find_char(t, ':'); bi_ends(t);
            let j = find(t, seq![':']);
            if j >= 0 { bi_step(t, j); ci_bi(t, j + 1); trim_start_le(t.skip(j + 1)); }
        }
    }
//@end
pub open spec fn upto2<'r, 't>(p: &Parser<'r, 't>, a: int, s1: Token, s2: Token, s: Seq<char>, b: int) -> bool {
    &&& 0 <= a <= b < p.ahead().len() && (p.ahead()[b].token == s1 || p.ahead()[b].token == s2)
    &&& forall|i: int| a <= i < b ==> (#[trigger] p.ahead()[i]).token != s1 && p.ahead()[i].token != s2
    &&& s == run_on(p.ahead().subrange(a, b))
}
pub proof fn text_between2<'r, 't>(p: &Parser<'r, 't>, q: Parser<'r, 't>, a: int, s1: Token, s2: Token)
    requires q.ran(p), a == p.remaining@.len() - q.remaining@.len(), q.wf(), s1 != Token::InputEnd, s2 != Token::InputEnd,
    ensures forall|close: Seq<ParseCondition>, invalid: Seq<ParseCondition>, n: int| #[trigger] text_upto(Job { from: q, close, invalid }, n) && close.len() == 2 && close[0] == ParseCondition::CurrentToken(s1) && close[1] == ParseCondition::CurrentToken(s2)
        ==> upto2(p, a, s1, s2, run_on(q.ahead().take(n)), a + n) && n < q.remaining@.len() && q.ahead()[n] == p.ahead()[a + n],
{
    assert forall|close: Seq<ParseCondition>, invalid: Seq<ParseCondition>, n: int| #[trigger] text_upto(Job { from: q, close, invalid }, n) && close.len() == 2 && close[0] == ParseCondition::CurrentToken(s1) && close[1] == ParseCondition::CurrentToken(s2)
        implies upto2(p, a, s1, s2, run_on(q.ahead().take(n)), a + n) && n < q.remaining@.len() && q.ahead()[n] == p.ahead()[a + n] by {
        let job = Job { from: q, close, invalid };
        assert(q.ahead().len() == q.remaining@.len() + 1);
        assert forall|i: int| 0 <= i < q.ahead().len() implies #[trigger] q.ahead()[i] == p.ahead()[a + i] by {}
        assert(exists|k: int| 0 <= k < close.len() && holds_at(#[trigger] close[k], q.ahead(), n));
        assert forall|i: int| a <= i < a + n implies (#[trigger] p.ahead()[i]).token != s1 && p.ahead()[i].token != s2 by {
            assert(is_text(job, i - a));
            assert(q.ahead()[i - a] == p.ahead()[i]);
            assert(!holds_at(close[0], q.ahead(), i - a));
            assert(!holds_at(close[1], q.ahead(), i - a));
        }
        assert(q.ahead().take(n) =~= p.ahead().subrange(a, a + n));
        if n > 0 { assert(q.ahead()[n] == q.remaining@[n - 1]); }
    }
}
// Where a target with an optional `!` leads, and of which type that makes the link.
pub open spec fn leads(settings: &WikitextSettings, s: Seq<char>, link: LinkLocation, ltype: LinkType) -> bool {
    if starts(s, seq!['!']) {
        match expand(settings.interwiki.prefixes@, s.skip(1)) { Some(u) => same(link, Want::Url(u)) && ltype == LinkType::Interwiki, None => false }
    } else {
        same(link, location(s)) && ltype == (match location(s) { Want::Url(_) => LinkType::Direct, Want::Page(_, _) => LinkType::Page })
    }
}
pub open spec fn label_is(l: LinkLabel, written: Option<Seq<char>>, url: Seq<char>) -> bool {
    match (written, l) {
        // without a label the link shows its target, shortened
        (None, LinkLabel::Url(t)) => match t { Some(t) => stripped(url) == Some(t@), None => stripped(url) is None },
        // an empty label stands for the page's title
        (Some(w), LinkLabel::Page) => trim(w).len() == 0,
        (Some(w), LinkLabel::Text(t)) => trim(w).len() > 0 && t@ == trim(w),
        _ => false,
    }
}
pub open spec fn made(settings: &WikitextSettings, e: Element, url: Seq<char>, written: Option<Seq<char>>, to: Option<AnchorTarget>) -> bool {
    match e {
        Element::Link { ltype, link, extra, label, target } => target == to && leads(settings, url, link, ltype) && maybe(extra) == extra_of(url) && label_is(label, written, url),
        _ => false,
    }
}
pub open spec fn link_made<'r, 't>(p: &Parser<'r, 't>, r: ParseResult<'r, 't, Elements<'t>>, url: Seq<char>, written: Option<Seq<char>>, to: Option<AnchorTarget>) -> bool {
    one(r) && made(p.settings, r->Ok_0.item@[0], url, written, to)
}
pub open spec fn same_text<'r, 't>(p: &Parser<'r, 't>, r: ParseResult<'r, 't, Elements<'t>>, to: Option<AnchorTarget>, raw: Seq<char>, b: int) -> bool {
    upto2(p, 1, Token::Pipe, Token::RightLink, raw, b) && p.ahead()[b].token is RightLink && trim(raw).len() > 0 && link_made(p, r, trim(raw), None, to)
}
pub open spec fn own_text<'r, 't>(p: &Parser<'r, 't>, r: ParseResult<'r, 't, Elements<'t>>, to: Option<AnchorTarget>, raw: Seq<char>, b: int, written: Seq<char>) -> bool {
    upto2(p, 1, Token::Pipe, Token::RightLink, raw, b) && p.ahead()[b].token is Pipe && trim(raw).len() > 0
        && between(p, b + 1, Token::RightLink, written) && link_made(p, r, trim(raw), Some(written), to)
}
pub open spec fn triple_link<'r, 't>(p: &Parser<'r, 't>, r: ParseResult<'r, 't, Elements<'t>>, to: Option<AnchorTarget>) -> bool {
    r.is_ok() ==> (exists|raw: Seq<char>, b: int| same_text(p, r, to, raw, b)) || (exists|raw: Seq<char>, b: int, w: Seq<char>| own_text(p, r, to, raw, b, w))
}
pub open spec fn triple_end<'r, 't>(p: &Parser<'r, 't>, f: &Parser<'r, 't>) -> bool {
    exists|b: int, raw: Seq<char>| #[trigger] upto2(p, 1, Token::Pipe, Token::RightLink, raw, b) && if p.ahead()[b].token is RightLink { f.remaining@.len() == p.remaining@.len() - b - 1 } else { passed(p, f, b + 1, Token::RightLink) }
}
//@fn src/parsing/rule/impls/link_triple.rs build_same r
//@sub `strip_category(url).map(Cow::Borrowed)` => `match strip_category(url) { Some(vf_s) => Some(Cow::Borrowed(vf_s)), None => None }`
//@macros
//@spec
    requires old(parser).wf(),
    ensures final(parser).ran(old(parser)), r.is_ok() && r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@), r.is_ok() ==> link_made(old(parser), r, url@, None, target), final(parser).at(old(parser)),
//@pre
    broadcast use running;
    let ghost p1 = *parser;
    proof { ran_refl(&p1); }
//@at 0 `vf_ok`
    proof {
        assert(element->Link_target == target);
        assert(leads(p1.settings, url@, element->Link_link, element->Link_ltype));
        assert(maybe(element->Link_extra) == extra_of(url@));
        assert(label_is(element->Link_label, None, url@));
        assert(made(p1.settings, element, url@, None, target));
    }
//@end
//@fn src/parsing/rule/impls/link_triple.rs build_separate r
//@methods trim is_empty
//@macros
//@sig
fn build_separate<'r, 't>(parser: &mut Parser<'r, 't>, rule: Rule, url: &'t str, target: Option<AnchorTarget>, Ghost(p0): Ghost<&Parser<'r, 't>>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).ran(p0), old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
    ensures final(parser).ran(old(parser)), r.is_ok() && r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@),
        r.is_ok() ==> exists|w: Seq<char>| #[trigger] between(p0, p0.remaining@.len() - old(parser).remaining@.len(), Token::RightLink, w) && link_made(p0, r, url@, Some(w), target),
        r.is_ok() ==> passed(p0, final(parser), p0.remaining@.len() - old(parser).remaining@.len(), Token::RightLink),
//@pre
    broadcast use running;
    let ghost p1 = *parser;
    proof { ran_refl(&p1); text_between(p0, p1, p0.remaining@.len() - p1.remaining@.len(), Token::RightLink); }
//@at 0 `let label = label`
    let ghost w = label@;
    proof { assert(between(p0, p0.remaining@.len() - p1.remaining@.len(), Token::RightLink, w)); assert(passed(p0, parser, p0.remaining@.len() - p1.remaining@.len(), Token::RightLink)); }
//@at 0 `vf_ok`
    proof {
        assert(element->Link_target == target);
        assert(leads(p1.settings, url@, element->Link_link, element->Link_ltype));
        assert(maybe(element->Link_extra) == extra_of(url@));
        assert(label_is(element->Link_label, Some(w), url@));
        assert(made(p1.settings, element, url@, Some(w), target));
    }
//@end
//@fn src/parsing/rule/impls/link_triple.rs try_consume_link r
//@rename triple
//@sub `Token::RightLink => build_same(parser, url, target),` => `Token::RightLink => { let vf_r = build_same(parser, url, target); proof { if vf_r.is_ok() { assert(same_text(p0, vf_r, target, raw, b)); } } vf_r }`
//@sub `Token::Pipe => build_separate($x),` => `Token::Pipe => { let vf_r = build_separate($x, Ghost(p0)); proof { if vf_r.is_ok() { let w = choose|w: Seq<char>| #[trigger] between(p0, b + 1, Token::RightLink, w) && link_made(p0, vf_r, url@, Some(w), target); assert(own_text(p0, vf_r, target, raw, b, w)); } } vf_r }`
//@methods trim is_empty
//@macros
//@sig
fn triple<'r, 't>(parser: &mut Parser<'r, 't>, rule: Rule, target: Option<AnchorTarget>, Ghost(p0): Ghost<&Parser<'r, 't>>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).ran(p0), old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).remaining@.len() == p0.remaining@.len() - 1,
    ensures final(parser).ran(old(parser)), r.is_ok() && r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@), triple_link(p0, r, target), r.is_ok() ==> triple_end(p0, final(parser)),
//@pre
    broadcast use running;
    let ghost p1 = *parser;
    proof { ran_refl(&p1); text_between2(p0, p1, 1, Token::Pipe, Token::RightLink); }
//@at 0 `let url = url`
    let ghost raw = url@;
    let ghost b = p0.remaining@.len() - parser.remaining@.len() - 1;
    proof { assert(upto2(p0, 1, Token::Pipe, Token::RightLink, raw, b)); }
//@end
//@type src/parsing/rule/impls/link_triple.rs RULE_LINK_TRIPLE
//@sub `try_consume_fn: link,` => `try_consume_fn: Fun::LinkTriple,`
//@end
//@type src/parsing/rule/impls/link_triple.rs RULE_LINK_TRIPLE_NEW_TAB
//@sub `try_consume_fn: link_new_tab,` => `try_consume_fn: Fun::LinkTripleNewTab,`
//@end
//@fn src/parsing/rule/impls/link_triple.rs link r
//@rename link_triple
//@sub `try_consume_link(parser, $r, $t)` => `triple(parser, $r, $t, Ghost(&p0))`
//@spec
    requires old(parser).starts(RULE_LINK_TRIPLE),
    ensures final(parser).ruled(old(parser), r), triple_link(old(parser), r, None), r.is_ok() ==> triple_end(old(parser), final(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/link_triple.rs link_new_tab r
//@rename link_triple_new_tab
//@sub `try_consume_link(parser, $r, $t)` => `triple(parser, $r, $t, Ghost(&p0))`
//@spec
    requires old(parser).starts(RULE_LINK_TRIPLE_NEW_TAB),
    ensures final(parser).ruled(old(parser), r), triple_link(old(parser), r, Some(AnchorTarget::NewTab)), r.is_ok() ==> triple_end(old(parser), final(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
