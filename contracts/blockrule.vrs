// C01, C09, C25: the rules which read blocks.
//@import blockhead
//@use blockfn
//@pin src/parsing/parser.rs `f(&mut self.clone()).unwrap_or(false)`
// Unit blockfuns proves this.
#[verifier::external_body]
pub fn vf_block_fn<'r, 't>(block: &BlockRule, parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires old(parser).called(block@, name@, flag_star, flag_score), documented_as(block@, name@),
    ensures final(parser).ruled(old(parser), r),
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_either(v: &[Token; 2], t: &Token) -> (r: bool) ensures r == (v@[0] == *t || v@[1] == *t) { unimplemented!() }
//@type src/parsing/rule/impls/block/rule.rs RULE_BLOCK
//@sub `try_consume_fn: block_regular,` => `try_consume_fn: Fun::Block,`
//@end
//@type src/parsing/rule/impls/block/rule.rs RULE_BLOCK_STAR
//@sub `try_consume_fn: block_star,` => `try_consume_fn: Fun::BlockStar,`
//@end
//@type src/parsing/rule/impls/block/rule.rs RULE_BLOCK_SKIP_NEWLINE
//@sub `try_consume_fn: block_skip,` => `try_consume_fn: Fun::BlockSkip,`
//@end
// The name of a block which has lines of its own.
pub open spec fn lined_name<'r, 't>(o: &Parser<'r, 't>, d: Doc, name: Seq<char>, more: bool, s: &Parser<'r, 't>, t: &Parser<'r, 't>) -> bool {
    s.read(o) && names_one(s, name, more, t) && documented_as(d, name) && d.newlines
}
pub open spec fn lined_block<'r, 't>(o: &Parser<'r, 't>) -> bool {
    (o.current.token is LeftBlock || o.current.token is LeftBlockStar) && exists|d: Doc, name: Seq<char>, more: bool, s: Parser<'r, 't>, t: Parser<'r, 't>| #[trigger] lined_name(o, d, name, more, &s, &t)
}
// The body of the closure.
//@fn src/parsing/rule/impls/block/rule.rs block_skip r
//@rename skips
//@sub `let current = parser.step()?; let result = parser.evaluate_fn(|parser| { $BODY }); if result { $T } else { $E }` => `$BODY`
//@sub `[Token::LeftBlock, Token::LeftBlockStar].contains(&current.token)` => `vf_either(&[Token::LeftBlock, Token::LeftBlockStar], &current.token)`
//@sub `Some(block_rule) => Ok(block_rule.accepts_newlines),` => `Some(block_rule) => { proof { let (more, q) = choose|more: bool, q: Parser<'r, 't>| q.read(&p0) && #[trigger] names_one(&q, name@, more, &p1); assert(documented_as(block_rule@, name@)); if block_rule.accepts_newlines { assert(lined_name(&p0, block_rule@, name@, more, &q, &p1)); } } Ok(block_rule.accepts_newlines) }`
//@sig
fn skips<'r: 't, 't>(parser: &mut Parser<'r, 't>, current: &'r ExtractedToken<'t>) -> (r: Result<bool, ParseError>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, current == old(parser).current,
    ensures final(parser).read(old(parser)), r == Ok::<bool, ParseError>(true) ==> lined_block(old(parser)),
//@pre
    broadcast use reading;
    let ghost p0 = *parser;
    proof { from_refl(&p0); }
//@at 0 `match get_block_rule_with_name`
    let ghost p1 = *parser;
//@end
//@fn src/parsing/rule/impls/block/rule.rs block_skip r
//@sub `parser.evaluate_fn(|parser| { $B })` => `{ let mut vf_p = parser.vf_clone(); vf_unwrap_or(skips(&mut vf_p, current), false) }`
//@sub `ok!(Elements::None)` => `Ok(ParseSuccess::new(Elements::None, vec![], true))`
//@spec
    requires old(parser).starts(RULE_BLOCK_SKIP_NEWLINE),
    ensures final(parser).ruled(old(parser), r),
        // the line end is left out before the name of a block which has lines of its own
        r.is_ok() ==> r->Ok_0.item@.len() == 0 && final(parser).remaining@.len() == old(parser).remaining@.len() - 1 && lined_block(final(parser)),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/rule.rs parse_block r
//@methods ends_with strip_suffix
//@sub `(block.parse_fn)(parser,` => `vf_block_fn(block, parser,`
//@spec
    requires old(parser).ready(),
    ensures final(parser).ruled(old(parser), r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); }
//@at 0 `parser.get_optional_space()?`
    let ghost p1 = *parser;
    proof { ran_refl(&p1); assert(p1.ran(&p0)); assert(p1.ready()); }
//@at 0 `parser.set_block`
    let ghost p2 = *parser;
    proof { ran_refl(&p2); assert(p2.ran(&p1)); }
//@past 0 `parser.set_block(block);`
    let ghost p3 = *parser;
    proof { ran_refl(&p3); assert(p3.ran(&p2)); }
//@end
//@fn src/parsing/rule/impls/block/rule.rs block_regular r
//@spec
    requires old(parser).starts(RULE_BLOCK),
    ensures final(parser).ruled(old(parser), r),
//@end
//@fn src/parsing/rule/impls/block/rule.rs block_star r
//@spec
    requires old(parser).starts(RULE_BLOCK_STAR),
    ensures final(parser).ruled(old(parser), r),
//@end
