// C23: text which is kept as it is, and variables.
//@import spans
//@pin src/parsing/rule/impls/raw.rs `Element::Raw(cow!($value))`
//@type src/parsing/rule/impls/raw.rs RULE_RAW
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Raw,`
//@end
pub open spec fn lines(t: Token) -> bool { t is LineBreak || t is ParagraphBreak }
// What is written between the marks, with nothing read into it.
pub open spec fn verbatim<'r, 't>(p: &Parser<'r, 't>, end: Token, s: Seq<char>, b: int) -> bool {
    upto(p, 1, end, s, b) && forall|i: int| 1 <= i < b ==> !lines((#[trigger] p.ahead()[i]).token)
}
pub open spec fn tok_is(p: &Parser, i: int, t: Token) -> bool { i < p.ahead().len() && p.ahead()[i].token == t }
// What the marks at p keep, and how many tokens are used up by that.
pub open spec fn kept_text<'r, 't>(p: &Parser<'r, 't>, s: Seq<char>, n: int) -> bool {
    if p.current.token is LeftRaw { verbatim(p, Token::RightRaw, s, n - 1) }
    else if !tok_is(p, 1, Token::Raw) { verbatim(p, Token::Raw, s, n - 1) }
    else if tok_is(p, 2, Token::Raw) { s == "@@"@ && n == 3 }
    else if tok_is(p, 2, Token::Other) && p.ahead()[2].slice@ == "@"@ { s == "@"@ && n == 3 }
    else { s.len() == 0 && n == 2 }
}
//@fn src/parsing/rule/impls/raw.rs try_consume_fn r
//@rename raw
//@sub `raw!($x)` => `Element::Raw(Cow::Borrowed($x))`
//@sub `next_2.slice == "@"` => `vf_eq(next_2.slice, "@")`
//@sub `let ExtractedToken { token, slice: _slice, span: _span, } = parser.current();` => `let token = &parser.current().token;`
//@sub `match token {` => `match *token {`
//@macros
//@spec
    requires old(parser).starts(RULE_RAW),
    ensures final(parser).ruled(old(parser), r), final(parser).moved(old(parser)),
        r.is_ok() ==> one(r) && match r->Ok_0.item@[0] { Element::Raw(x) => kept_text(old(parser), x@, old(parser).remaining@.len() - final(parser).remaining@.len()), _ => false },
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); reveal_strlit(""); reveal_strlit("@"); assert(p0.ahead().len() == p0.remaining@.len() + 1); }
//@loop 0
    invariant
        *old(parser) == p0, p0.starts(RULE_RAW), p0.wf(), parser.wf(), parser.moved(&p0), parser.remaining@.len() < p0.remaining@.len(),
        ending_token == if p0.current.token is Raw { Token::Raw } else { Token::RightRaw },
        ending_token is Raw ==> p0.ahead()[1].token != Token::Raw,
        ({
            let n = p0.remaining@.len() - parser.remaining@.len();
            &&& *start == p0.ahead()[1] && *end == p0.ahead()[n]
            &&& forall|i: int| 1 <= i < n ==> !lines((#[trigger] p0.ahead()[i]).token) && p0.ahead()[i].token != ending_token
        }),
    decreases parser.remaining@.len(),
//@in 0
    broadcast use running;
    let ghost p1 = *parser;
    let ghost n = p0.remaining@.len() - p1.remaining@.len();
    proof {
        assert(p0.ahead().len() == p0.remaining@.len() + 1);
        assert(p1.ahead()[0] == p0.ahead()[n]);
        assert(p0.ahead()[n] == *p1.current);
        assert forall|b: Parser| #![trigger b.moved(&p1)] b.moved(&p1) implies b.moved(&p0) by { from_trans(&p0, &p1, &b); }
    }
//@tail 0
    proof { assert(parser.ahead()[0] == p0.ahead()[n + 1]); assert(*end == p0.ahead()[n + 1]); assert(parser.remaining@.len() == p1.remaining@.len() - 1); }
//@at 0 `let slice`
    proof {
        covers_order(p0.full_text.text@, p0.ahead(), 1, n);
        if n > 1 { covers_text(p0.full_text.text@, p0.ahead(), 1, n - 1); covers_adj(p0.full_text.text@, p0.ahead(), n - 1); }
        else { assert(p0.ahead().subrange(1, 1) =~= Seq::<ExtractedToken>::empty()); }
    }
//@at 1 `parser.step()?`
    proof { assert(slice@ =~= run_on(p0.ahead().subrange(1, n))); assert(p0.ahead()[n].token == ending_token); assert(upto(&p0, 1, ending_token, slice@, n)); assert(verbatim(&p0, ending_token, slice@, n)); }
//@at 2 `parser.step_n(3)?`
    proof {
        let a = p0.ahead();
        covers_order(p0.full_text.text@, a, 1, 1);
        assert(a.subrange(1, 2) =~= seq![a[1]]);
        covers_text(p0.full_text.text@, a, 1, 1);
        assert(upto(&p0, 1, Token::Raw, next_1.slice@, 2));
        assert(verbatim(&p0, Token::Raw, next_1.slice@, 2));
    }
//@end
