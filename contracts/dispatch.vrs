// C01, C09, C11, C28: which rules are tried at which token, and that their functions keep their contract.
//@import simple spans linkrules rawrule heads nested deflist tables blockrule
//@pin src/parsing/rule/mapping.rs `pub fn get_rules_for_token(current: &ExtractedToken) -> &'static [Rule] { &RULE_MAP[current.token] }`
pub open spec fn suit(rules: Seq<Rule>, t: Token) -> bool { forall|i: int| 0 <= i < rules.len() ==> fits((#[trigger] rules[i]).try_consume_fn, t) && placed(rules[i]) }
// The map, as the function of the token it is.
//@type src/parsing/rule/mapping.rs RULE_MAP
//@sub `static RULE_MAP: Lazy<EnumMap<Token, Vec<Rule>>> = Lazy::new(|| { enum_map! { $ARMS } });` => `fn RULE_MAP(t: Token) -> (r: Vec<Rule>) ensures suit(r@, t), { match t { $ARMS } }`
//@end
// Calling a rule's function.
pub fn vf_rule_fn_proved<'r, 't>(rule: Rule, parser: &mut Parser<'r, 't>) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires old(parser).starts(rule),
    ensures final(parser).ruled(old(parser), r),
{
    match rule.try_consume_fn {
        Fun::Anchor => anchor(parser),
        Fun::Bibcite => bibcite(parser),
        Fun::Block => block_regular(parser),
        Fun::BlockSkip => block_skip(parser),
        Fun::BlockStar => block_star(parser),
        Fun::Blockquote => blockquote(parser),
        Fun::Bold => bold(parser),
        Fun::Center => center(parser),
        Fun::ClearFloat => clear_float(parser),
        Fun::Color => color(parser),
        Fun::Comment => comment(parser),
        Fun::Dash => dash(parser),
        Fun::DefinitionList => definition_list(parser),
        Fun::DefinitionListSkip => skip_newline(parser),
        Fun::DoubleAngle => double_angle(parser),
        Fun::Email => email(parser),
        Fun::Header => header(parser),
        Fun::HorizontalRule => horizontal_rule(parser),
        Fun::Italics => italics(parser),
        Fun::LineBreak => line_break(parser),
        Fun::LineBreakParagraph => line_break_paragraph(parser),
        Fun::LinkAnchor => link_anchor(parser),
        Fun::LinkSingle => link_single(parser),
        Fun::LinkSingleNewTab => link_single_new_tab(parser),
        Fun::LinkTriple => link_triple(parser),
        Fun::LinkTripleNewTab => link_triple_new_tab(parser),
        Fun::List => list(parser),
        Fun::Math => math(parser),
        Fun::Monospace => monospace(parser),
        Fun::Null => null(parser),
        Fun::Raw => raw(parser),
        Fun::StrikethroughDash => strike_dash(parser),
        Fun::StrikethroughTilde => strike_tilde(parser),
        Fun::Subscript => subscript(parser),
        Fun::Superscript => superscript(parser),
        Fun::Table => table(parser),
        Fun::Text => text(parser),
        Fun::Underline => underline(parser),
        Fun::UnderscoreLineBreak => underscore_line_break(parser),
        Fun::Url => url(parser),
        Fun::Variable => variable(parser),
        // not in the map
        Fun::Fallback | Fun::Page | Fun::Pseudo => vf_never(),
    }
}
pub fn vf_never<'r, 't>() -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires false,
{ vf_unreachable() }
