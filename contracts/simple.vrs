// C09, C28, C01: the rules for single tokens, and for what is between two of them.
//@import collect
pub broadcast proof fn ran_moved<'r, 't>(a: &Parser<'r, 't>, b: &Parser<'r, 't>)
    requires #[trigger] b.moved(a),
    ensures b.ran(a),
{ }
pub broadcast proof fn ran_trans<'r, 't>(a: &Parser<'r, 't>, b: &Parser<'r, 't>, c: &Parser<'r, 't>)
    requires #[trigger] b.ran(a), #[trigger] c.ran(b),
    ensures c.ran(a),
{ from_trans(a, b, c); more_trans(a, b, c); }
pub broadcast proof fn ran_wf<'r, 't>(a: &Parser<'r, 't>, b: &Parser<'r, 't>)
    requires #[trigger] b.ran(a), a.wf(),
    ensures b.wf(),
{ from_wf(a, b); }
pub broadcast group running { ran_moved, ran_trans, ran_wf }
pub proof fn ran_refl(a: &Parser) ensures a.ran(a) { from_refl(a); more_refl(a); }
// Macro ok!(element), ok!(Elements::None)
//@pin src/parsing/macros.rs `($item:expr $(,)?) => { ok!($item, Vec::new()) };`
//@pin src/parsing/macros.rs `($paragraph_safe:expr; $item:expr $(,)?) => { ok!($paragraph_safe; $item, Vec::new()) };`
pub fn vf_none<'r, 't>() -> (r: ParseResult<'r, 't, Elements<'t>>)
    ensures r.is_ok(), r->Ok_0.item@ == Seq::<Element>::empty(), r->Ok_0.errors@.len() == 0, r->Ok_0.paragraph_safe,
{
    let item = Elements::None;
    let paragraph_safe = item.paragraph_safe();
    Ok(ParseSuccess::new(item, Vec::new(), paragraph_safe))
}
impl ParseCondition {
//@fn src/parsing/condition.rs @ `impl ParseCondition` current r
//@spec
    ensures r == ParseCondition::CurrentToken(token),
//@end
//@fn src/parsing/condition.rs @ `impl ParseCondition` token_pair r
//@spec
    ensures r == ParseCondition::TokenPair(current, next),
//@end
}
//@fn src/parsing/check_step.rs check_step r
//@spec
    requires old(parser).current.token == token,
    ensures
        r.is_ok() == (old(parser).remaining@.len() > 0),
        r.is_ok() ==> r->Ok_0 == old(parser).current && final(parser).remaining@.len() == old(parser).remaining@.len() - 1 && *final(parser).current == old(parser).remaining@[0] && final(parser).remaining@ == old(parser).remaining@.skip(1),
        final(parser).moved(old(parser)), old(parser).wf() ==> final(parser).wf(),
//@end
//@pin src/macros.rs `Cow::Borrowed($value)`
//@pin src/macros.rs `Element::Text(cow!($value))`
// The conversions into what a rule gives.
pub trait Conv<U>: Sized {
    spec fn conv(self, r: U) -> bool;
    fn vf_to(self) -> (r: U) ensures self.conv(r);
}
pub fn vf_to<U, T: Conv<U>>(x: T) -> (r: U) ensures x.conv(r) { x.vf_to() }
impl<'t> Conv<Elements<'t>> for Element<'t> {
    open spec fn conv(self, r: Elements<'t>) -> bool { r@ == seq![self] && r == Elements::Single(self) }
    fn vf_to(self) -> (r: Elements<'t>) { Elements::from_element(self) }
}
impl<'t> Conv<Elements<'t>> for Vec<Element<'t>> {
    open spec fn conv(self, r: Elements<'t>) -> bool { r@ == self@ }
    fn vf_to(self) -> (r: Elements<'t>) { Elements::from_vec(self) }
}
impl<'t> Conv<Elements<'t>> for Option<Element<'t>> {
    open spec fn conv(self, r: Elements<'t>) -> bool { r@ == match self { Some(e) => seq![e], None => Seq::empty() } }
    fn vf_to(self) -> (r: Elements<'t>) { Elements::from_option(self) }
}
impl<'t> Conv<Elements<'t>> for Elements<'t> {
    open spec fn conv(self, r: Elements<'t>) -> bool { r == self }
    fn vf_to(self) -> (r: Elements<'t>) { self }
}
impl<A, B> Conv<(A, B)> for (A, B) {
    open spec fn conv(self, r: (A, B)) -> bool { r == self }
    fn vf_to(self) -> (r: (A, B)) { self }
}
// -- containers --
pub open spec fn contains<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>, c: ContainerType) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] {
        Element::Container(x) => x.ctype == c && x.attributes@ == Map::<Seq<char>, Seq<char>>::empty() && no_partial(x.elements@),
        _ => false,
    }
}
//@fn src/parsing/collect/container.rs collect_container r
//@macros
//@sub `collect_consume($x)?.into()` => `vf_into(collect_consume($x)?)`
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is None,
    ensures final(parser).ran(old(parser)), final(parser).kept(old(parser)), final(parser).wf(), contains(r, container_type),
        r.is_ok() ==> final(parser).depth == old(parser).depth && r->Ok_0.item is Single,
        r.is_ok() && r->Ok_0.paragraph_safe ==> all_inline(r->Ok_0.item@),
        r.is_ok() ==> exists|q: Parser<'r, 't>| #![trigger q.ran(old(parser))] q.ran(old(parser)) && any_holds(close_conditions@, &q) && final(parser).moved(&q)
                    && final(parser).remaining@.len() == (if q.remaining@.len() > 0 { q.remaining@.len() - 1 } else { 0 }),
        r.is_ok() ==> closed(close_conditions@, old(parser), final(parser)),
//@end
// From p to f, n tokens are passed, then others, and at last one which is t (the end counts as passed).
pub open spec fn enclosed(p: &Parser, f: &Parser, n: int, t: Seq<Token>) -> bool {
    let b = p.remaining@.len() - f.remaining@.len();
    (b > n && t.contains(p.ahead()[b - 1].token)) || (f.remaining@.len() == 0 && b >= n && t.contains(Token::InputEnd))
}
pub open spec fn stoppers(c: Seq<ParseCondition>, t: Seq<Token>) -> bool { c.len() == t.len() && forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == ParseCondition::CurrentToken(t[i]) }
pub proof fn enclosed_by<'r, 't>(p: &Parser<'r, 't>, q: Parser<'r, 't>, n: int, t: Seq<Token>)
    requires q.from(p), q.wf(), p.remaining@.len() - q.remaining@.len() == n,
    ensures forall|f: Parser<'r, 't>, c: Seq<ParseCondition>| #![trigger closed(c, &q, &f)] closed(c, &q, &f) && stoppers(c, t) && f.from(&q) ==> enclosed(p, &f, n, t),
{
    assert(q.ahead().len() == q.remaining@.len() + 1);
    assert forall|i: int| 0 <= i < q.ahead().len() implies #[trigger] q.ahead()[i] == p.ahead()[n + i] by {}
    assert forall|f: Parser<'r, 't>, c: Seq<ParseCondition>| #![trigger closed(c, &q, &f)] closed(c, &q, &f) && stoppers(c, t) && f.from(&q) implies enclosed(p, &f, n, t) by {
        let m = q.remaining@.len() - f.remaining@.len();
        if m > 0 && any_at(c, q.ahead(), m - 1) {
            let k = choose|k: int| 0 <= k < c.len() && holds_at(#[trigger] c[k], q.ahead(), m - 1);
            assert(t[k] == q.ahead()[m - 1].token);
            assert(q.ahead()[m - 1] == p.ahead()[n + m - 1]);
        } else {
            let k = choose|k: int| 0 <= k < c.len() && holds_at(#[trigger] c[k], q.ahead(), m);
            assert(t[k] == q.ahead()[m].token);
            if m > 0 { assert(q.ahead()[m] == q.remaining@[m - 1]); }
            assert(t[k] == Token::InputEnd);
        }
    }
}
pub open spec fn encl<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>, p: &Parser, f: &Parser, n: int, t: Seq<Token>) -> bool { r.is_ok() ==> enclosed(p, f, n, t) }
pub open spec fn first_is(p: &Parser, t: Token) -> bool { p.current.token == t }
pub open spec fn nth_is(p: &Parser, n: int, t: Token) -> bool { p.remaining@.len() >= n && p.ahead()[n].token == t }
pub open spec fn one<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>) -> bool { r.is_ok() ==> r->Ok_0.item@.len() == 1 }
pub open spec fn nothing<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>) -> bool { r.is_ok() ==> r->Ok_0.item@.len() == 0 }
//@type src/parsing/rule/impls/bold.rs RULE_BOLD
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Bold,`
//@end
//@fn src/parsing/rule/impls/bold.rs try_consume_fn r
//@rename bold
//@macros
//@spec
    requires old(parser).starts(RULE_BOLD),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Bold), encl(r, old(parser), final(parser), 1, seq![Token::Bold]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `collect_container`
    proof { enclosed_by(&p0, *parser, 1, seq![Token::Bold]); }
//@end
//@type src/parsing/rule/impls/italics.rs RULE_ITALICS
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Italics,`
//@end
//@fn src/parsing/rule/impls/italics.rs try_consume_fn r
//@rename italics
//@macros
//@spec
    requires old(parser).starts(RULE_ITALICS),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Italics), encl(r, old(parser), final(parser), 1, seq![Token::Italics]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `collect_container`
    proof { enclosed_by(&p0, *parser, 1, seq![Token::Italics]); }
//@end
//@type src/parsing/rule/impls/underline.rs RULE_UNDERLINE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Underline,`
//@end
//@fn src/parsing/rule/impls/underline.rs try_consume_fn r
//@rename underline
//@macros
//@spec
    requires old(parser).starts(RULE_UNDERLINE),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Underline), encl(r, old(parser), final(parser), 1, seq![Token::Underline]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `collect_container`
    proof { enclosed_by(&p0, *parser, 1, seq![Token::Underline]); }
//@end
//@type src/parsing/rule/impls/superscript.rs RULE_SUPERSCRIPT
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Superscript,`
//@end
//@fn src/parsing/rule/impls/superscript.rs try_consume_fn r
//@rename superscript
//@macros
//@spec
    requires old(parser).starts(RULE_SUPERSCRIPT),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Superscript), encl(r, old(parser), final(parser), 1, seq![Token::Superscript]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `collect_container`
    proof { enclosed_by(&p0, *parser, 1, seq![Token::Superscript]); }
//@end
//@type src/parsing/rule/impls/subscript.rs RULE_SUBSCRIPT
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Subscript,`
//@end
//@fn src/parsing/rule/impls/subscript.rs try_consume_fn r
//@rename subscript
//@macros
//@spec
    requires old(parser).starts(RULE_SUBSCRIPT),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Subscript), encl(r, old(parser), final(parser), 1, seq![Token::Subscript]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `collect_container`
    proof { enclosed_by(&p0, *parser, 1, seq![Token::Subscript]); }
//@end
//@type src/parsing/rule/impls/monospace.rs RULE_MONOSPACE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Monospace,`
//@end
//@fn src/parsing/rule/impls/monospace.rs try_consume_fn r
//@rename monospace
//@macros
//@spec
    requires old(parser).starts(RULE_MONOSPACE),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Monospace), encl(r, old(parser), final(parser), 1, seq![Token::RightMonospace]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `collect_container`
    proof { enclosed_by(&p0, *parser, 1, seq![Token::RightMonospace]); }
//@end
//@type src/parsing/rule/impls/strikethrough.rs RULE_STRIKETHROUGH_DASH
//@sub `try_consume_fn: dash,` => `try_consume_fn: Fun::StrikethroughDash,`
//@end
//@type src/parsing/rule/impls/strikethrough.rs RULE_STRIKETHROUGH_TILDE
//@sub `try_consume_fn: tilde,` => `try_consume_fn: Fun::StrikethroughTilde,`
//@end
//@fn src/parsing/rule/impls/strikethrough.rs try_consume_strikethrough r
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is None, old(parser).current.token == token,
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Strikethrough), encl(r, old(parser), final(parser), 1, seq![token]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `collect_container`
    proof { enclosed_by(&p0, *parser, 1, seq![token]); }
//@end
//@fn src/parsing/rule/impls/strikethrough.rs dash r
//@rename strike_dash
//@macros
//@spec
    requires old(parser).starts(RULE_STRIKETHROUGH_DASH),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Strikethrough), encl(r, old(parser), final(parser), 1, seq![Token::DoubleDash]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/strikethrough.rs tilde r
//@rename strike_tilde
//@macros
//@spec
    requires old(parser).starts(RULE_STRIKETHROUGH_TILDE),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Strikethrough), encl(r, old(parser), final(parser), 1, seq![Token::DoubleTilde]),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
// -- single tokens --
//@type src/parsing/rule/impls/text.rs RULE_TEXT
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Text,`
//@end
//@fn src/parsing/rule/impls/text.rs try_consume_fn r
//@rename text
//@macros
//@spec
    requires old(parser).starts(RULE_TEXT),
    ensures final(parser).ruled(old(parser), r), r.is_ok(), one(r), r->Ok_0.item@[0] is Text, r->Ok_0.item@[0]->Text_0@ == old(parser).current.slice@, final(parser).at(old(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/email.rs RULE_EMAIL
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Email,`
//@end
//@fn src/parsing/rule/impls/email.rs try_consume_fn r
//@rename email
//@macros
//@spec
    requires old(parser).starts(RULE_EMAIL),
    ensures final(parser).ruled(old(parser), r), r.is_ok(), one(r), r->Ok_0.item@[0] is Email, r->Ok_0.item@[0]->Email_0@ == old(parser).current.slice@, final(parser).at(old(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/dash.rs RULE_DASH
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Dash,`
//@end
//@fn src/parsing/rule/impls/dash.rs try_consume_fn r
//@rename dash
//@macros
//@sub `_parser` => `parser`
//@spec
    requires old(parser).starts(RULE_DASH),
    ensures final(parser).ruled(old(parser), r), r.is_ok(), one(r), r->Ok_0.item@[0] is Text, r->Ok_0.item@[0]->Text_0@ == "\u{2014}"@, final(parser).at(old(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/null.rs RULE_NULL
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Null,`
//@end
//@fn src/parsing/rule/impls/null.rs try_consume_fn r
//@rename null
//@macros
//@sub `_parser` => `parser`
//@spec
    requires old(parser).starts(RULE_NULL),
    ensures final(parser).ruled(old(parser), r), r.is_ok(), nothing(r), final(parser).at(old(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/double_angle.rs RULE_DOUBLE_ANGLE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::DoubleAngle,`
//@end
//@fn src/parsing/rule/impls/double_angle.rs try_consume_fn r
//@rename double_angle
//@macros
//@sub `current.slice == ">>"` => `vf_eq(current.slice, ">>")`
//@spec
    requires old(parser).starts(RULE_DOUBLE_ANGLE),
    ensures final(parser).ruled(old(parser), r), one(r), final(parser).at(old(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/horizontal_rule.rs RULE_HORIZONTAL_RULE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::HorizontalRule,`
//@end
//@fn src/parsing/rule/impls/horizontal_rule.rs try_consume_fn r
//@rename horizontal_rule
//@macros
//@spec
    requires old(parser).starts(RULE_HORIZONTAL_RULE),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> r->Ok_0.item@ == seq![Element::HorizontalRule],
        // the mark and the end of its line, if that is next, are used up
        r.is_ok() ==> old(parser).remaining@.len() - final(parser).remaining@.len() == (if nth_is(old(parser), 1, Token::LineBreak) { 2int } else { 1 }),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/clear_float.rs RULE_CLEAR_FLOAT
//@sub `try_consume_fn,` => `try_consume_fn: Fun::ClearFloat,`
//@end
//@fn src/parsing/rule/impls/clear_float.rs try_consume_fn r
//@rename clear_float
//@macros
//@spec
    requires old(parser).starts(RULE_CLEAR_FLOAT),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> r->Ok_0.item@ == seq![Element::ClearFloat(match old(parser).current.token { Token::ClearFloatLeft => ClearFloat::Left, Token::ClearFloatRight => ClearFloat::Right, _ => ClearFloat::Both })], final(parser).at(old(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/underscore_line_break.rs RULE_UNDERSCORE_LINE_BREAK
//@sub `try_consume_fn,` => `try_consume_fn: Fun::UnderscoreLineBreak,`
//@end
//@fn src/parsing/rule/impls/underscore_line_break.rs try_consume_fn r
//@rename underscore_line_break
//@macros
//@sub `match parser.next_two_tokens() { $A => { parser.step()?; } $B if parser.start_of_line() => (), _ => return $e, }` => `let vf_t = parser.next_two_tokens(); if matches!(vf_t, $A) { parser.step()?; } else if matches!(vf_t, $B) && parser.start_of_line() { } else { return $e; }`
//@spec
    requires old(parser).starts(RULE_UNDERSCORE_LINE_BREAK),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> r->Ok_0.item@ == seq![Element::LineBreak],
        // a blank or nothing, the underscore and the end of the line, and no more
        r.is_ok() ==> ({
            let k = if first_is(old(parser), Token::Whitespace) { 1int } else { 0 };
            &&& k == 1 || old(parser).start_of_line
            &&& nth_is(old(parser), k, Token::Underscore) && (nth_is(old(parser), k + 1, Token::LineBreak) || nth_is(old(parser), k + 1, Token::ParagraphBreak))
            &&& old(parser).remaining@.len() - final(parser).remaining@.len() == k + 2
        }),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@type src/parsing/rule/impls/center.rs RULE_CENTER
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Center,`
//@end
//@fn src/parsing/rule/impls/center.rs try_consume_fn r
//@rename center
//@macros
//@spec
    requires old(parser).starts(RULE_CENTER),
    ensures final(parser).ruled(old(parser), r), contains(r, ContainerType::Align(Alignment::Center)), encl(r, old(parser), final(parser), 2, seq![Token::LineBreak, Token::ParagraphBreak, Token::InputEnd]),
        // the marker is the sign and a blank
        r.is_ok() ==> nth_is(old(parser), 0, Token::Equals) && nth_is(old(parser), 1, Token::Whitespace),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `collect_container`
    proof { enclosed_by(&p0, *parser, 2, seq![Token::LineBreak, Token::ParagraphBreak, Token::InputEnd]); }
//@end
//@type src/parsing/rule/impls/comment.rs RULE_COMMENT
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Comment,`
//@end
//@fn src/parsing/rule/impls/comment.rs try_consume_fn r
//@rename comment
//@macros
//@spec
    requires old(parser).starts(RULE_COMMENT),
    ensures final(parser).ruled(old(parser), r), nothing(r), final(parser).moved(old(parser)),
        // all up to the first closing mark is used up, and no more
        r.is_ok() ==> old(parser).remaining@.len() > final(parser).remaining@.len() && nth_is(old(parser), old(parser).remaining@.len() - final(parser).remaining@.len() - 1, Token::RightComment)
            && not_before(old(parser), old(parser).remaining@.len() - final(parser).remaining@.len() - 1, Token::RightComment),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@loop 0
    invariant parser.ran(&p0), parser.moved(&p0), *old(parser) == p0, p0.wf(), parser.wf(), parser.remaining@.len() < p0.remaining@.len(), not_before(&p0, p0.remaining@.len() - parser.remaining@.len(), Token::RightComment),
    decreases parser.remaining@.len(),
//@in 0
    broadcast use running;
    let ghost p1 = *parser;
    proof {
        assert(p1.ahead()[0] == p0.ahead()[p0.remaining@.len() - p1.remaining@.len()]);
        assert forall|b: Parser| #![trigger b.moved(&p1)] b.moved(&p1) implies b.moved(&p0) by { from_trans(&p0, &p1, &b); }
    }
//@end
// None of the tokens before the n-th, but for the first, is t.
pub open spec fn not_before(p: &Parser, n: int, t: Token) -> bool { forall|i: int| 1 <= i < n ==> (#[trigger] p.ahead()[i]).token != t }
