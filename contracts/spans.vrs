// C05, C08, C11, C23: the rules for what is written between two tokens, as text.
//@import simple ids
//@use fmt
// The text of the tokens from the a-th on, up to the first one which is `stop`.
pub open spec fn upto<'r, 't>(p: &Parser<'r, 't>, a: int, stop: Token, s: Seq<char>, b: int) -> bool {
    &&& 0 <= a <= b < p.ahead().len() && p.ahead()[b].token == stop
    &&& forall|i: int| a <= i < b ==> (#[trigger] p.ahead()[i]).token != stop
    &&& s == run_on(p.ahead().subrange(a, b))
}
pub open spec fn between<'r, 't>(p: &Parser<'r, 't>, a: int, stop: Token, s: Seq<char>) -> bool { exists|b: int| upto(p, a, stop, s, b) }
// f is where the text from the a-th token on, up to the first one which is `stop`, and that one are used up.
pub open spec fn passed<'r, 't>(p: &Parser<'r, 't>, f: &Parser<'r, 't>, a: int, stop: Token) -> bool { exists|s: Seq<char>| #[trigger] upto(p, a, stop, s, p.remaining@.len() - f.remaining@.len() - 1) }
// What collect_text() gives, seen from where the rule has started.
pub proof fn is_between<'r, 't>(p: &Parser<'r, 't>, q: Parser<'r, 't>, close: Seq<ParseCondition>, invalid: Seq<ParseCondition>, stop: Token, n: int)
    requires q.from(p), text_upto(Job { from: q, close, invalid }, n), close.len() == 1, close[0] == ParseCondition::CurrentToken(stop),
    ensures upto(p, p.remaining@.len() - q.remaining@.len(), stop, run_on(q.ahead().take(n)), p.remaining@.len() - q.remaining@.len() + n),
{
    let a = p.remaining@.len() - q.remaining@.len();
    let job = Job { from: q, close, invalid };
    assert(q.ahead().len() == q.remaining@.len() + 1);
    assert forall|i: int| 0 <= i < q.ahead().len() implies #[trigger] q.ahead()[i] == p.ahead()[a + i] by {}
    assert(holds_at(close[0], q.ahead(), n));
    assert forall|i: int| a <= i < a + n implies (#[trigger] p.ahead()[i]).token != stop by {
        assert(is_text(job, i - a));
        assert(q.ahead()[i - a] == p.ahead()[i]);
        assert(!holds_at(close[0], q.ahead(), i - a));
    }
    assert(q.ahead().take(n) =~= p.ahead().subrange(a, a + n));
}
pub proof fn text_between<'r, 't>(p: &Parser<'r, 't>, q: Parser<'r, 't>, a: int, stop: Token)
    requires q.ran(p), a == p.remaining@.len() - q.remaining@.len(), q.wf(),
    ensures forall|close: Seq<ParseCondition>, invalid: Seq<ParseCondition>, n: int| #[trigger] text_upto(Job { from: q, close, invalid }, n) && close.len() == 1 && close[0] == ParseCondition::CurrentToken(stop)
        ==> between(p, a, stop, run_on(q.ahead().take(n))) && upto(p, a, stop, run_on(q.ahead().take(n)), a + n) && (stop != Token::InputEnd ==> n < q.remaining@.len()),
{
    assert forall|close: Seq<ParseCondition>, invalid: Seq<ParseCondition>, n: int| #[trigger] text_upto(Job { from: q, close, invalid }, n) && close.len() == 1 && close[0] == ParseCondition::CurrentToken(stop)
        implies between(p, a, stop, run_on(q.ahead().take(n))) && upto(p, a, stop, run_on(q.ahead().take(n)), a + n) && (stop != Token::InputEnd ==> n < q.remaining@.len()) by {
        is_between(p, q, close, invalid, stop, n);
        assert(holds_at(close[0], q.ahead(), n));
        if n > 0 { assert(q.ahead()[n] == q.remaining@[n - 1]); }
    }
}
pub open spec fn named_by(x: Seq<char>, name: Seq<char>, isolate: bool) -> bool { x == if isolate { isolated(name) } else { name } }
// the body of the closure
//@pin src/parsing/parser.rs `f(&mut self.clone()).unwrap_or(false)`
// What starts on a line of its own.
pub open spec fn starter(t: Token) -> bool {
    t is Quote || t is BulletItem || t is NumberedItem || t is Heading || t is Equals || t is TripleDash || t is ClearFloatLeft || t is ClearFloatRight
        || t is ClearFloatBoth || t is TableColumn || t is TableColumnLeft || t is TableColumnRight || t is TableColumnCenter || t is TableColumnTitle
}
pub open spec fn before_starter(p: &Parser) -> bool {
    p.remaining@.len() > 0 && if p.remaining@[0].token is Whitespace { p.remaining@.len() > 1 && starter(p.remaining@[1].token) } else { starter(p.remaining@[0].token) }
}
//@fn src/parsing/rule/impls/line_break.rs line_break r
//@rename upcoming
//@sub `let upcoming_skip = parser.evaluate_fn(|parser| { $BODY }); if upcoming_skip { $T } ok!(Element::LineBreak)` => `$BODY`
//@sig
fn upcoming<'r, 't>(parser: &mut Parser<'r, 't>) -> (r: Result<bool, ParseError>)
//@spec
    requires old(parser).wf(),
    ensures final(parser).moved(old(parser)), match r { Ok(b) => b == before_starter(old(parser)), Err(_) => !before_starter(old(parser)) },
//@pre
    let ghost p0 = *parser;
    proof { from_refl(&p0); }
//@at 0 `parser.get_optional_space`
    let ghost p1 = *parser;
    proof { assert forall|b: Parser| #![trigger b.moved(&p1)] b.moved(&p1) implies b.moved(&p0) by { from_trans(&p0, &p1, &b); } }
//@at 0 `Ok(`
    proof {
        if p0.remaining@[0].token is Whitespace {
            assert(p1.current.token is Whitespace);
            assert(parser.remaining@ == p1.remaining@.skip(1));
            if p1.remaining@.len() == 0 { assert(p1.wf()); }
            assert(parser.ahead() == p1.ahead().skip(p1.remaining@.len() - parser.remaining@.len()));
            assert(parser.ahead()[0] == p1.ahead()[1]);
            assert(*parser.current == p1.remaining@[0]);
            assert(p1.remaining@[0] == p0.remaining@[1]);
        }
    }
//@end
//@type src/parsing/rule/impls/line_break.rs RULE_LINE_BREAK
//@sub `try_consume_fn: line_break,` => `try_consume_fn: Fun::LineBreak,`
//@end
//@type src/parsing/rule/impls/line_break.rs RULE_LINE_BREAK_PARAGRAPH
//@sub `try_consume_fn: line_break_paragraph,` => `try_consume_fn: Fun::LineBreakParagraph,`
//@end
//@fn src/parsing/rule/impls/line_break.rs line_break r
//@rename line_break
//@sub `parser.evaluate_fn(|parser| { $B })` => `{ let mut vf_p = parser.vf_clone(); match upcoming(&mut vf_p) { Ok(vf_b) => vf_b, Err(_) => false } }`
//@macros
//@spec
    requires old(parser).starts(RULE_LINE_BREAK),
    ensures final(parser).ruled(old(parser), r), r.is_ok(), final(parser).at(old(parser)), r->Ok_0.item@ == (if before_starter(old(parser)) { Seq::<Element>::empty() } else { seq![Element::LineBreak] }),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/line_break.rs line_break_paragraph r
//@rename line_break_paragraph
//@macros
//@spec
    requires old(parser).starts(RULE_LINE_BREAK_PARAGRAPH),
    ensures final(parser).ruled(old(parser), r), r.is_ok(), final(parser).at(old(parser)), r->Ok_0.item@ == (if before_starter(old(parser)) { Seq::<Element>::empty() } else { seq![Element::LineBreak] }),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/anchor.rs RULE_ANCHOR
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Anchor,`
//@end
//@fn src/parsing/rule/impls/anchor.rs try_consume_fn r
//@rename anchor
//@macros
//@spec
    requires old(parser).starts(RULE_ANCHOR),
    ensures final(parser).ruled(old(parser), r), 
        // the name is what is written, with its words marked if they have to be kept apart
        r.is_ok() ==> passed(old(parser), final(parser), 2, Token::RightBlock) && nth_is(old(parser), 1, Token::Whitespace),
        r.is_ok() ==> one(r) && match r->Ok_0.item@[0] {
            Element::AnchorName(x) => exists|name: Seq<char>| between(old(parser), 2, Token::RightBlock, name) && #[trigger] named_by(x@, name, old(parser).settings.isolate_user_ids),
            _ => false,
        },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `let name = collect_text`
    proof { text_between(&p0, *parser, 2, Token::RightBlock); }
//@at 0 `let name = if`
    let ghost written = name@;
    proof { assert(between(&p0, 2, Token::RightBlock, written)); }
//@at 0 `vf_ok`
    proof { assert(named_by(name@, written, p0.settings.isolate_user_ids)); }
//@end
//@type src/parsing/rule/impls/bibcite.rs RULE_BIBCITE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Bibcite,`
//@end
//@fn src/parsing/rule/impls/bibcite.rs try_consume_fn r
//@rename bibcite
//@methods eq_ignore_ascii_case
//@macros
//@spec
    requires old(parser).starts(RULE_BIBCITE),
    ensures final(parser).ruled(old(parser), r), 
        r.is_ok() ==> passed(old(parser), final(parser), 3, Token::RightParentheses) && nth_is(old(parser), 1, Token::Identifier) && eq_nocase(old(parser).ahead()[1].slice@, "bibcite"@) && nth_is(old(parser), 2, Token::Whitespace),
        r.is_ok() ==> one(r) && match r->Ok_0.item@[0] { Element::BibliographyCite { label, brackets } => !brackets && between(old(parser), 3, Token::RightParentheses, label@), _ => false },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `let label = collect_text`
    proof { text_between(&p0, *parser, 3, Token::RightParentheses); }
//@end
//@type src/parsing/rule/impls/math.rs RULE_MATH
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Math,`
//@end
//@fn src/parsing/rule/impls/math.rs try_consume_fn r
//@rename math
//@methods trim
//@macros
//@spec
    requires old(parser).starts(RULE_MATH),
    ensures final(parser).ruled(old(parser), r), 
        r.is_ok() ==> passed(old(parser), final(parser), 1, Token::RightMath),
        r.is_ok() ==> one(r) && match r->Ok_0.item@[0] { Element::MathInline { latex_source } => exists|s: Seq<char>| #[trigger] between(old(parser), 1, Token::RightMath, s) && latex_source@ == trim(s), _ => false },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `let source = collect_text`
    proof { text_between(&p0, *parser, 1, Token::RightMath); }
//@end
//@type src/parsing/rule/impls/color.rs RULE_COLOR
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Color,`
//@end
//@pin src/parsing/rule/impls/color.rs `static HEX_COLOR: Lazy<Regex> = Lazy::new(|| Regex::new(r"^([a-fA-F0-9]{3}|[a-fA-F0-9]{6})$").unwrap());`
//@assume HEX_COLOR, pinned by its text, matches three or six hexadecimal digits and nothing else
pub open spec fn hex_digit(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn bare_hex(s: Seq<char>) -> bool { (s.len() == 3 || s.len() == 6) && forall|i: int| 0 <= i < s.len() ==> hex_digit(#[trigger] s[i]) }
pub open spec fn hexify(s: Seq<char>) -> Seq<char> { if bare_hex(s) { seq!['#'] + s } else { s } }
#[verifier::external_body]
fn vf_hex_color(s: &str) -> (r: bool) ensures r == bare_hex(s@) { unimplemented!() }
//@fn src/parsing/rule/impls/color.rs hexify_color r
//@sub `HEX_COLOR.is_match(color)` => `vf_hex_color(color)`
//@fmt
//@spec
    ensures r@ == hexify(color@),
//@pre
    proof { reveal_strlit("#"); }
//@end
//@fn src/parsing/rule/impls/color.rs try_consume_fn r
//@rename color
//@sub `collect_consume($x)?.into()` => `vf_into(collect_consume($x)?)`
//@macros
//@spec
    requires old(parser).starts(RULE_COLOR),
    ensures final(parser).ruled(old(parser), r), 
        r.is_ok() ==> coloured(old(parser), final(parser)),
        r.is_ok() ==> one(r) && match r->Ok_0.item@[0] { Element::Color { color, elements } => no_partial(elements@) && exists|s: Seq<char>| #[trigger] between(old(parser), 1, Token::Pipe, s) && color@ == hexify(s), _ => false },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `let color = collect_text`
    proof { text_between(&p0, *parser, 1, Token::Pipe); }
//@at 0 `let ( elements`
    let ghost b = p0.remaining@.len() - parser.remaining@.len() - 1;
    proof { assert(upto(&p0, 1, Token::Pipe, color@, b)); enclosed_by(&p0, *parser, b + 1, seq![Token::Color]); }
//@end
// The colour up to the first bar, and then something up to the closing mark.
pub open spec fn coloured(p: &Parser, f: &Parser) -> bool { exists|b: int, s: Seq<char>| #[trigger] upto(p, 1, Token::Pipe, s, b) && enclosed(p, f, b + 1, seq![Token::Color]) }
