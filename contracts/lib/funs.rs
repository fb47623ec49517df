// The functions a rule may have: pointers to them are shown as their names.
//@pin src/parsing/rule/mod.rs `pub type TryConsumeFn = for<'p, 'r, 't> fn(parser: &'p mut Parser<'r, 't>,) -> ParseResult<'r, 't, Elements<'t>>;`
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum Fun {
    Anchor, Bibcite, Block, BlockSkip, BlockStar, Blockquote, Bold, Center, ClearFloat, Color, Comment, Dash, DefinitionList, DefinitionListSkip,
    DoubleAngle, Email, Fallback, Header, HorizontalRule, Italics, LineBreak, LineBreakParagraph, LinkAnchor, LinkSingle, LinkSingleNewTab,
    LinkTriple, LinkTripleNewTab, List, Math, Monospace, Null, Page, Raw, StrikethroughDash, StrikethroughTilde, Subscript, Superscript,
    Table, Text, Underline, UnderscoreLineBreak, Url, Variable,
    // of the rules that only stand for a block or module in an error
    Pseudo,
}
// At which tokens a function is made to start.
pub open spec fn fits(f: Fun, t: Token) -> bool {
    match f {
        Fun::Anchor => t is LeftBlockAnchor,
        Fun::Bibcite => t is LeftParentheses,
        Fun::Block => t is LeftBlock,
        Fun::BlockSkip | Fun::DefinitionListSkip => t is LineBreak,
        Fun::BlockStar => t is LeftBlockStar,
        Fun::Bold => t is Bold,
        Fun::Color => t is Color,
        Fun::Comment => t is LeftComment,
        Fun::DefinitionList => t is Colon,
        Fun::DoubleAngle => t is LeftDoubleAngle || t is Quote,
        Fun::Fallback | Fun::Page | Fun::Pseudo => false,
        Fun::HorizontalRule => t is TripleDash,
        Fun::Italics => t is Italics,
        Fun::LinkAnchor => t is LeftBracketAnchor,
        Fun::LinkSingle => t is LeftBracket,
        Fun::LinkSingleNewTab => t is LeftBracketStar,
        Fun::LinkTriple => t is LeftLink,
        Fun::LinkTripleNewTab => t is LeftLinkStar,
        Fun::Math => t is LeftMath,
        Fun::Monospace => t is LeftMonospace,
        Fun::Raw => t is Raw || t is LeftRaw,
        Fun::StrikethroughDash => t is DoubleDash,
        Fun::StrikethroughTilde => t is DoubleTilde,
        Fun::Subscript => t is Subscript,
        Fun::Superscript => t is Superscript,
        Fun::Underline => t is Underline,
        Fun::Variable => t is Variable,
        // the others look for themselves
        _ => true,
    }
}
// Which functions are made to start at the beginning of a line.
pub open spec fn lined(f: Fun) -> bool {
    f is Blockquote || f is Center || f is ClearFloat || f is DefinitionList || f is Header || f is HorizontalRule || f is List || f is Table
}
