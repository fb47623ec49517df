// C10, C01: tokens tile the source.
//@import text
//@pest src/parsing/lexer.pest
// What the lexer makes of a text, by the rules of its grammar.
pub open spec fn width(e: Seq<(LexRule, nat)>) -> nat
    decreases e.len(),
{ if e.len() == 0 { 0 } else { width(e.drop_last()) + e.last().1 } }
pub open spec fn lex(s: Seq<char>) -> Option<Seq<(LexRule, nat)>>
    decreases s.len(),
{
    match lex_one(s) {
        None => if s.len() == 0 { Some(seq![(LexRule::EOI, 0nat)]) } else { None },
        Some(e) => if 0 < width(e) <= s.len() { match lex(s.skip(width(e) as int)) { Some(r) => Some(e + r), None => None } } else { None },
    }
}
pub proof fn width_add(a: Seq<(LexRule, nat)>, b: Seq<(LexRule, nat)>)
    ensures width(a + b) == width(a) + width(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        width_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub proof fn width_few(e: Seq<(LexRule, nat)>)
    ensures e.len() == 1 ==> width(e) == e[0].1, e.len() == 2 ==> width(e) == e[0].1 + e[1].1,
{
    if e.len() == 1 { assert(width(e.drop_last()) == 0); }
    if e.len() == 2 {
        let d = e.drop_last();
        assert(d.len() == 1 && d.last() == e[0]);
        assert(width(d.drop_last()) == 0);
        assert(width(d) == e[0].1);
    }
}
pub open spec fn ended(l: Seq<(LexRule, nat)>) -> bool { l.len() > 0 && l.last().1 == 0 && forall|i: int| 0 <= i < l.len() ==> if i == l.len() - 1 { (#[trigger] l[i]).0 is EOI } else { shown_rule(l[i].0) } }
pub proof fn width_le(l: Seq<(LexRule, nat)>, j: int)
    requires 0 <= j <= l.len(),
    ensures width(l.take(j)) <= width(l),
{ width_add(l.take(j), l.skip(j)); assert(l.take(j) + l.skip(j) =~= l); }
pub proof fn width_take(l: Seq<(LexRule, nat)>, i: int)
    requires 0 <= i < l.len(),
    ensures width(l.take(i + 1)) == width(l.take(i)) + l[i].1,
{ assert(l.take(i + 1).drop_last() =~= l.take(i)); }
// Each is what its rule matches where it is.
pub open spec fn right(s: Seq<char>, l: Seq<(LexRule, nat)>, i: int) -> bool { rule_of(l[i].0, s.skip(width(l.take(i)) as int)) == Some(l[i].1) }
pub open spec fn all_right(s: Seq<char>, l: Seq<(LexRule, nat)>) -> bool { forall|i: int| 0 <= i < l.len() - 1 ==> #[trigger] right(s, l, i) }
proof fn right_join(s: Seq<char>, e: Seq<(LexRule, nat)>, r: Seq<(LexRule, nat)>)
    requires lex_fine(s, Some(e)), width(e) <= s.len(), all_right(s.skip(width(e) as int), r), width(r) == s.len() - width(e),
    ensures all_right(s, e + r),
{
    hide(rule_of); hide(shown_rule);
    let l = e + r;
    let t = s.skip(width(e) as int);
    assert forall|i: int| 0 <= i < l.len() - 1 implies #[trigger] right(s, l, i) by {
        if i >= e.len() {
            let j = i - e.len();
            assert(right(t, r, j));
            assert(l.take(i) =~= e + r.take(j));
            width_add(e, r.take(j));
            width_le(r, j);
            assert(t.skip(width(r.take(j)) as int) =~= s.skip(width(l.take(i)) as int));
            assert(l[i] == r[j]);
        } else if i == 0 {
            assert(l.take(0) =~= Seq::empty());
            assert(s.skip(0) =~= s);
            assert(l[0] == e[0]);
        } else {
            assert(l.take(1) =~= seq![e[0]]);
            width_few(l.take(1));
            assert(l[1] == e[1]);
        }
    }
}
// The lexer gets to the end of every text.
pub proof fn lex_fine_all(s: Seq<char>)
    ensures lex(s).is_some(), width(lex(s)->Some_0) == s.len(), ended(lex(s)->Some_0), all_right(s, lex(s)->Some_0),
    decreases s.len(),
{
    hide(rule_of); hide(all_right);
    lex_one_fine(s);
    match lex_one(s) {
        None => {
            let l = seq![(LexRule::EOI, 0nat)];
            assert(width(l.drop_last()) == 0);
            reveal(all_right);
        }
        Some(e) => {
            width_few(e);
            let t = s.skip(width(e) as int);
            lex_fine_all(t);
            let r = lex(t)->Some_0;
            width_add(e, r);
            let l = e + r;
            assert(l.last() == r.last());
            assert forall|i: int| 0 <= i < l.len() implies if i == l.len() - 1 { (#[trigger] l[i]).0 is EOI } else { shown_rule(l[i].0) } by {
                if i >= e.len() { assert(l[i] == r[i - e.len()]); }
            }
            right_join(s, e, r);
        }
    }
}
// What pest hands out: a rule and the part of the text it matched.
pub struct Pair<'t> { pub rule: LexRule, pub text: &'t str, pub from: usize, pub to: usize }
pub struct PairSpan { pub from: usize, pub to: usize }
impl<'t> Pair<'t> {
    pub fn as_rule(&self) -> (r: LexRule) ensures r == self.rule { self.rule }
    pub fn as_str(&self) -> (r: &'t str) ensures r == self.text { self.text }
    pub fn as_span(&self) -> (r: PairSpan) ensures r.from == self.from, r.to == self.to { PairSpan { from: self.from, to: self.to } }
}
impl PairSpan {
    pub fn start(&self) -> (r: usize) ensures r == self.from { self.from }
    pub fn end(&self) -> (r: usize) ensures r == self.to { self.to }
}
// pest's parser for a grammar does what the grammar says.
//@assume the parser pest derives from the grammar file accepts and matches what parsing expression grammars prescribe
pub open spec fn pairs_of(s: Seq<char>, l: Seq<(LexRule, nat)>, v: Seq<Pair>) -> bool {
    v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> pair_of(s, l, i, #[trigger] v[i])
}
pub open spec fn pair_of(s: Seq<char>, l: Seq<(LexRule, nat)>, i: int, p: Pair) -> bool {
    let (a, b) = (width(l.take(i)) as int, width(l.take(i + 1)) as int);
    p.rule == l[i].0 && 0 <= a <= b <= s.len() && p.from == bi(s, a) && p.to == bi(s, b) && p.text@ == s.subrange(a, b)
}
pub struct TokenLexer;
pub struct LexError;
impl TokenLexer {
    #[verifier::external_body]
    pub fn parse<'t>(rule: LexRule, text: &'t str) -> (r: Result<Vec<Pair<'t>>, LexError>)
        requires rule is document,
        ensures r.is_ok() == lex(text@).is_some(), r.is_ok() ==> pairs_of(text@, lex(text@)->Some_0, r->Ok_0@),
    { unimplemented!() }
}
// A text which a rule matches.
pub open spec fn matched(rule: LexRule, s: Seq<char>) -> bool { if rule is EOI { s.len() == 0 } else { exists|t: Seq<char>| #[trigger] rule_of(rule, t) == Some(s.len()) && s.len() <= t.len() && t.take(s.len() as int) == s } }
// The token for what each rule of the grammar matches.
pub open spec fn kind(r: LexRule) -> Token {
    match r {
        LexRule::left_comment => Token::LeftComment,
        LexRule::right_comment => Token::RightComment,
        LexRule::left_bracket => Token::LeftBracket,
        LexRule::left_bracket_anchor => Token::LeftBracketAnchor,
        LexRule::left_bracket_star => Token::LeftBracketStar,
        LexRule::right_bracket => Token::RightBracket,
        LexRule::left_parens => Token::LeftParentheses,
        LexRule::right_parens => Token::RightParentheses,
        LexRule::left_block => Token::LeftBlock,
        LexRule::left_block_end => Token::LeftBlockEnd,
        LexRule::left_block_anchor => Token::LeftBlockAnchor,
        LexRule::left_block_star => Token::LeftBlockStar,
        LexRule::left_math => Token::LeftMath,
        LexRule::right_block => Token::RightBlock,
        LexRule::right_math => Token::RightMath,
        LexRule::color => Token::Color,
        LexRule::double_dash => Token::DoubleDash,
        LexRule::triple_dash => Token::TripleDash,
        LexRule::double_tilde => Token::DoubleTilde,
        LexRule::left_double_angle => Token::LeftDoubleAngle,
        LexRule::clear_float => Token::ClearFloatBoth,
        LexRule::clear_float_left => Token::ClearFloatLeft,
        LexRule::clear_float_right => Token::ClearFloatRight,
        LexRule::pipe => Token::Pipe,
        LexRule::colon => Token::Colon,
        LexRule::underscore => Token::Underscore,
        LexRule::equals => Token::Equals,
        LexRule::quote => Token::Quote,
        LexRule::heading => Token::Heading,
        LexRule::line_break => Token::LineBreak,
        LexRule::paragraph_break => Token::ParagraphBreak,
        LexRule::space => Token::Whitespace,
        LexRule::bold => Token::Bold,
        LexRule::italics => Token::Italics,
        LexRule::underline => Token::Underline,
        LexRule::superscript => Token::Superscript,
        LexRule::subscript => Token::Subscript,
        LexRule::left_monospace => Token::LeftMonospace,
        LexRule::right_monospace => Token::RightMonospace,
        LexRule::raw => Token::Raw,
        LexRule::left_raw => Token::LeftRaw,
        LexRule::right_raw => Token::RightRaw,
        LexRule::bullet_item => Token::BulletItem,
        LexRule::numbered_item => Token::NumberedItem,
        LexRule::left_link => Token::LeftLink,
        LexRule::left_link_star => Token::LeftLinkStar,
        LexRule::right_link => Token::RightLink,
        LexRule::table_column => Token::TableColumn,
        LexRule::table_column_left => Token::TableColumnLeft,
        LexRule::table_column_right => Token::TableColumnRight,
        LexRule::table_column_center => Token::TableColumnCenter,
        LexRule::table_column_title => Token::TableColumnTitle,
        LexRule::identifier => Token::Identifier,
        LexRule::email => Token::Email,
        LexRule::url => Token::Url,
        LexRule::variable => Token::Variable,
        LexRule::string => Token::String,
        LexRule::other => Token::Other,
        _ => Token::InputEnd,
    }
}
proof fn kind_left_comment(t: Seq<char>, n: nat)
    requires pg_left_comment(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftComment, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_comment, t); let s = t.take(n as int); }
proof fn kind_right_comment(t: Seq<char>, n: nat)
    requires pg_right_comment(t) == Some(n), n <= t.len(),
    ensures shaped(Token::RightComment, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::right_comment, t); let s = t.take(n as int); }
proof fn kind_left_bracket(t: Seq<char>, n: nat)
    requires pg_left_bracket(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftBracket, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_bracket, t); let s = t.take(n as int); }
proof fn kind_left_bracket_anchor(t: Seq<char>, n: nat)
    requires pg_left_bracket_anchor(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftBracketAnchor, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_bracket_anchor, t); let s = t.take(n as int); }
proof fn kind_left_bracket_star(t: Seq<char>, n: nat)
    requires pg_left_bracket_star(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftBracketStar, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_bracket_star, t); let s = t.take(n as int); }
proof fn kind_right_bracket(t: Seq<char>, n: nat)
    requires pg_right_bracket(t) == Some(n), n <= t.len(),
    ensures shaped(Token::RightBracket, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::right_bracket, t); let s = t.take(n as int); }
proof fn kind_left_parens(t: Seq<char>, n: nat)
    requires pg_left_parens(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftParentheses, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_parens, t); let s = t.take(n as int); }
proof fn kind_right_parens(t: Seq<char>, n: nat)
    requires pg_right_parens(t) == Some(n), n <= t.len(),
    ensures shaped(Token::RightParentheses, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::right_parens, t); let s = t.take(n as int); }
proof fn kind_left_block(t: Seq<char>, n: nat)
    requires pg_left_block(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftBlock, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_block, t); let s = t.take(n as int); }
proof fn kind_left_block_end(t: Seq<char>, n: nat)
    requires pg_left_block_end(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftBlockEnd, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_block_end, t); let s = t.take(n as int); }
proof fn kind_left_block_anchor(t: Seq<char>, n: nat)
    requires pg_left_block_anchor(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftBlockAnchor, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_block_anchor, t); let s = t.take(n as int); }
proof fn kind_left_block_star(t: Seq<char>, n: nat)
    requires pg_left_block_star(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftBlockStar, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_block_star, t); let s = t.take(n as int); }
proof fn kind_left_math(t: Seq<char>, n: nat)
    requires pg_left_math(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftMath, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_math, t); let s = t.take(n as int); }
proof fn kind_right_block(t: Seq<char>, n: nat)
    requires pg_right_block(t) == Some(n), n <= t.len(),
    ensures shaped(Token::RightBlock, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::right_block, t); let s = t.take(n as int); }
proof fn kind_right_math(t: Seq<char>, n: nat)
    requires pg_right_math(t) == Some(n), n <= t.len(),
    ensures shaped(Token::RightMath, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::right_math, t); let s = t.take(n as int); }
proof fn kind_color(t: Seq<char>, n: nat)
    requires pg_color(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Color, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::color, t); let s = t.take(n as int); }
proof fn kind_double_dash(t: Seq<char>, n: nat)
    requires pg_double_dash(t) == Some(n), n <= t.len(),
    ensures shaped(Token::DoubleDash, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::double_dash, t); let s = t.take(n as int); }
proof fn kind_triple_dash(t: Seq<char>, n: nat)
    requires pg_triple_dash(t) == Some(n), n <= t.len(),
    ensures shaped(Token::TripleDash, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::triple_dash, t); let s = t.take(n as int); }
proof fn kind_double_tilde(t: Seq<char>, n: nat)
    requires pg_double_tilde(t) == Some(n), n <= t.len(),
    ensures shaped(Token::DoubleTilde, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::double_tilde, t); let s = t.take(n as int); }
proof fn kind_left_double_angle(t: Seq<char>, n: nat)
    requires pg_left_double_angle(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftDoubleAngle, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_double_angle, t); let s = t.take(n as int); }
proof fn kind_clear_float(t: Seq<char>, n: nat)
    requires pg_clear_float(t) == Some(n), n <= t.len(),
    ensures shaped(Token::ClearFloatBoth, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::clear_float, t); let s = t.take(n as int); }
proof fn kind_clear_float_left(t: Seq<char>, n: nat)
    requires pg_clear_float_left(t) == Some(n), n <= t.len(),
    ensures shaped(Token::ClearFloatLeft, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::clear_float_left, t); let s = t.take(n as int); }
proof fn kind_clear_float_right(t: Seq<char>, n: nat)
    requires pg_clear_float_right(t) == Some(n), n <= t.len(),
    ensures shaped(Token::ClearFloatRight, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::clear_float_right, t); let s = t.take(n as int); }
proof fn kind_pipe(t: Seq<char>, n: nat)
    requires pg_pipe(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Pipe, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::pipe, t); let s = t.take(n as int); }
proof fn kind_colon(t: Seq<char>, n: nat)
    requires pg_colon(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Colon, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::colon, t); let s = t.take(n as int); }
proof fn kind_underscore(t: Seq<char>, n: nat)
    requires pg_underscore(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Underscore, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::underscore, t); let s = t.take(n as int); }
proof fn kind_equals(t: Seq<char>, n: nat)
    requires pg_equals(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Equals, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::equals, t); let s = t.take(n as int); }
proof fn kind_quote(t: Seq<char>, n: nat)
    requires pg_quote(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Quote, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::quote, t); let s = t.take(n as int); }
proof fn kind_heading(t: Seq<char>, n: nat)
    requires pg_heading(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Heading, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::heading, t); let s = t.take(n as int); }
proof fn kind_line_break(t: Seq<char>, n: nat)
    requires pg_line_break(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LineBreak, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::line_break, t); let s = t.take(n as int); }
proof fn kind_paragraph_break(t: Seq<char>, n: nat)
    requires pg_paragraph_break(t) == Some(n), n <= t.len(),
    ensures shaped(Token::ParagraphBreak, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::paragraph_break, t); let s = t.take(n as int); }
proof fn kind_space(t: Seq<char>, n: nat)
    requires pg_space(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Whitespace, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::space, t); let s = t.take(n as int); }
proof fn kind_bold(t: Seq<char>, n: nat)
    requires pg_bold(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Bold, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::bold, t); let s = t.take(n as int); }
proof fn kind_italics(t: Seq<char>, n: nat)
    requires pg_italics(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Italics, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::italics, t); let s = t.take(n as int); }
proof fn kind_underline(t: Seq<char>, n: nat)
    requires pg_underline(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Underline, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::underline, t); let s = t.take(n as int); }
proof fn kind_superscript(t: Seq<char>, n: nat)
    requires pg_superscript(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Superscript, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::superscript, t); let s = t.take(n as int); }
proof fn kind_subscript(t: Seq<char>, n: nat)
    requires pg_subscript(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Subscript, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::subscript, t); let s = t.take(n as int); }
proof fn kind_left_monospace(t: Seq<char>, n: nat)
    requires pg_left_monospace(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftMonospace, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_monospace, t); let s = t.take(n as int); }
proof fn kind_right_monospace(t: Seq<char>, n: nat)
    requires pg_right_monospace(t) == Some(n), n <= t.len(),
    ensures shaped(Token::RightMonospace, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::right_monospace, t); let s = t.take(n as int); }
proof fn kind_raw(t: Seq<char>, n: nat)
    requires pg_raw(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Raw, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::raw, t); let s = t.take(n as int); }
proof fn kind_left_raw(t: Seq<char>, n: nat)
    requires pg_left_raw(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftRaw, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_raw, t); let s = t.take(n as int); }
proof fn kind_right_raw(t: Seq<char>, n: nat)
    requires pg_right_raw(t) == Some(n), n <= t.len(),
    ensures shaped(Token::RightRaw, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::right_raw, t); let s = t.take(n as int); }
proof fn kind_bullet_item(t: Seq<char>, n: nat)
    requires pg_bullet_item(t) == Some(n), n <= t.len(),
    ensures shaped(Token::BulletItem, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::bullet_item, t); let s = t.take(n as int); }
proof fn kind_numbered_item(t: Seq<char>, n: nat)
    requires pg_numbered_item(t) == Some(n), n <= t.len(),
    ensures shaped(Token::NumberedItem, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::numbered_item, t); let s = t.take(n as int); }
proof fn kind_left_link(t: Seq<char>, n: nat)
    requires pg_left_link(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftLink, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_link, t); let s = t.take(n as int); }
proof fn kind_left_link_star(t: Seq<char>, n: nat)
    requires pg_left_link_star(t) == Some(n), n <= t.len(),
    ensures shaped(Token::LeftLinkStar, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::left_link_star, t); let s = t.take(n as int); }
proof fn kind_right_link(t: Seq<char>, n: nat)
    requires pg_right_link(t) == Some(n), n <= t.len(),
    ensures shaped(Token::RightLink, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::right_link, t); let s = t.take(n as int); }
proof fn kind_table_column(t: Seq<char>, n: nat)
    requires pg_table_column(t) == Some(n), n <= t.len(),
    ensures shaped(Token::TableColumn, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::table_column, t); let s = t.take(n as int); }
proof fn kind_table_column_left(t: Seq<char>, n: nat)
    requires pg_table_column_left(t) == Some(n), n <= t.len(),
    ensures shaped(Token::TableColumnLeft, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::table_column_left, t); let s = t.take(n as int); }
proof fn kind_table_column_right(t: Seq<char>, n: nat)
    requires pg_table_column_right(t) == Some(n), n <= t.len(),
    ensures shaped(Token::TableColumnRight, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::table_column_right, t); let s = t.take(n as int); }
proof fn kind_table_column_center(t: Seq<char>, n: nat)
    requires pg_table_column_center(t) == Some(n), n <= t.len(),
    ensures shaped(Token::TableColumnCenter, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::table_column_center, t); let s = t.take(n as int); }
proof fn kind_table_column_title(t: Seq<char>, n: nat)
    requires pg_table_column_title(t) == Some(n), n <= t.len(),
    ensures shaped(Token::TableColumnTitle, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::table_column_title, t); let s = t.take(n as int); }
proof fn kind_identifier(t: Seq<char>, n: nat)
    requires pg_identifier(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Identifier, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::identifier, t); let s = t.take(n as int); }
proof fn kind_email(t: Seq<char>, n: nat)
    requires pg_email(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Email, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::email, t); let s = t.take(n as int); }
proof fn kind_url(t: Seq<char>, n: nat)
    requires pg_url(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Url, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::url, t); let s = t.take(n as int); }
proof fn kind_variable(t: Seq<char>, n: nat)
    requires pg_variable(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Variable, t.take(n as int)),
{
    reveal(shaped);
    rule_facts(LexRule::variable, t);
    let s = t.take(n as int);
    let u = t.skip(2);
    rule_facts(LexRule::identifier, u);
    assert(pg_identifier(u).is_some());
    let k = pg_identifier(u)->Some_0 as int;
    assert(n == k + 3);
    assert(s[k + 2] == u.skip(k)[0]);
    assert forall|i: int| 2 <= i < s.len() - 1 implies alnum(#[trigger] s[i]) by { assert(s[i] == u[i - 2]); }
}
proof fn kind_string(t: Seq<char>, n: nat)
    requires pg_string(t) == Some(n), n <= t.len(),
    ensures shaped(Token::String, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::string, t); let s = t.take(n as int); }
proof fn kind_other(t: Seq<char>, n: nat)
    requires pg_other(t) == Some(n), n <= t.len(),
    ensures shaped(Token::Other, t.take(n as int)),
{ reveal(shaped); rule_facts(LexRule::other, t); let s = t.take(n as int); }
pub proof fn kind_shaped(rule: LexRule, s: Seq<char>)
    requires shown_rule(rule) || rule is EOI, matched(rule, s),
    ensures shaped(kind(rule), s),
{
    if rule is EOI { reveal(shaped); } else {
        let t = choose|t: Seq<char>| #[trigger] rule_of(rule, t) == Some(s.len()) && s.len() <= t.len() && t.take(s.len() as int) == s;
        match rule {
            LexRule::left_comment => { kind_left_comment(t, s.len()); }
            LexRule::right_comment => { kind_right_comment(t, s.len()); }
            LexRule::left_bracket => { kind_left_bracket(t, s.len()); }
            LexRule::left_bracket_anchor => { kind_left_bracket_anchor(t, s.len()); }
            LexRule::left_bracket_star => { kind_left_bracket_star(t, s.len()); }
            LexRule::right_bracket => { kind_right_bracket(t, s.len()); }
            LexRule::left_parens => { kind_left_parens(t, s.len()); }
            LexRule::right_parens => { kind_right_parens(t, s.len()); }
            LexRule::left_block => { kind_left_block(t, s.len()); }
            LexRule::left_block_end => { kind_left_block_end(t, s.len()); }
            LexRule::left_block_anchor => { kind_left_block_anchor(t, s.len()); }
            LexRule::left_block_star => { kind_left_block_star(t, s.len()); }
            LexRule::left_math => { kind_left_math(t, s.len()); }
            LexRule::right_block => { kind_right_block(t, s.len()); }
            LexRule::right_math => { kind_right_math(t, s.len()); }
            LexRule::color => { kind_color(t, s.len()); }
            LexRule::double_dash => { kind_double_dash(t, s.len()); }
            LexRule::triple_dash => { kind_triple_dash(t, s.len()); }
            LexRule::double_tilde => { kind_double_tilde(t, s.len()); }
            LexRule::left_double_angle => { kind_left_double_angle(t, s.len()); }
            LexRule::clear_float => { kind_clear_float(t, s.len()); }
            LexRule::clear_float_left => { kind_clear_float_left(t, s.len()); }
            LexRule::clear_float_right => { kind_clear_float_right(t, s.len()); }
            LexRule::pipe => { kind_pipe(t, s.len()); }
            LexRule::colon => { kind_colon(t, s.len()); }
            LexRule::underscore => { kind_underscore(t, s.len()); }
            LexRule::equals => { kind_equals(t, s.len()); }
            LexRule::quote => { kind_quote(t, s.len()); }
            LexRule::heading => { kind_heading(t, s.len()); }
            LexRule::line_break => { kind_line_break(t, s.len()); }
            LexRule::paragraph_break => { kind_paragraph_break(t, s.len()); }
            LexRule::space => { kind_space(t, s.len()); }
            LexRule::bold => { kind_bold(t, s.len()); }
            LexRule::italics => { kind_italics(t, s.len()); }
            LexRule::underline => { kind_underline(t, s.len()); }
            LexRule::superscript => { kind_superscript(t, s.len()); }
            LexRule::subscript => { kind_subscript(t, s.len()); }
            LexRule::left_monospace => { kind_left_monospace(t, s.len()); }
            LexRule::right_monospace => { kind_right_monospace(t, s.len()); }
            LexRule::raw => { kind_raw(t, s.len()); }
            LexRule::left_raw => { kind_left_raw(t, s.len()); }
            LexRule::right_raw => { kind_right_raw(t, s.len()); }
            LexRule::bullet_item => { kind_bullet_item(t, s.len()); }
            LexRule::numbered_item => { kind_numbered_item(t, s.len()); }
            LexRule::left_link => { kind_left_link(t, s.len()); }
            LexRule::left_link_star => { kind_left_link_star(t, s.len()); }
            LexRule::right_link => { kind_right_link(t, s.len()); }
            LexRule::table_column => { kind_table_column(t, s.len()); }
            LexRule::table_column_left => { kind_table_column_left(t, s.len()); }
            LexRule::table_column_right => { kind_table_column_right(t, s.len()); }
            LexRule::table_column_center => { kind_table_column_center(t, s.len()); }
            LexRule::table_column_title => { kind_table_column_title(t, s.len()); }
            LexRule::identifier => { kind_identifier(t, s.len()); }
            LexRule::email => { kind_email(t, s.len()); }
            LexRule::url => { kind_url(t, s.len()); }
            LexRule::variable => { kind_variable(t, s.len()); }
            LexRule::string => { kind_string(t, s.len()); }
            LexRule::other => { kind_other(t, s.len()); }
            _ => {}
        }
    }
}
impl Token {
//@fn src/parsing/token/mod.rs @ `impl Token` get_from_rule r
//@sub `Rule` => `LexRule`
//@spec
    requires shown_rule(rule) || rule is EOI,
    ensures r == kind(rule),
        // the token is what its text looks like
        forall|s: Seq<char>| #[trigger] matched(rule, s) ==> shaped(r, s),
//@pre
    proof { assert forall|s: Seq<char>| #[trigger] matched(rule, s) implies shaped(kind(rule), s) by { kind_shaped(rule, s); } }
//@end
//@fn src/parsing/token/mod.rs @ `impl Token` convert_pair r
//@sub `Pair<Rule>` => `Pair`
//@spec
    requires shown_rule(pair.rule) || pair.rule is EOI, matched(pair.rule, pair.text@),
    ensures shaped(r.token, r.slice@), r.slice == pair.text, r.span.start == pair.from, r.span.end == pair.to, r.token is InputEnd <==> pair.rule is EOI, !(r.token is InputStart),
//@end
//@fn src/parsing/token/mod.rs @ `impl Token` extract_all r
//@sub `Rule` => `LexRule`
//@sub `tokens.extend(pairs.map(Token::convert_pair));` => `for vf_p in pairs { tokens.push(Token::convert_pair(vf_p)); }`
//@methods len
//@spec
    ensures
        // one start and one end, both empty, and the text in between, without gaps or overlaps
        r@.len() >= 2, covers(text@, r@), run_on(r@) == text@,
        r@[0].token is InputStart, r@[0].span.start == 0, r@[0].span.end == 0, r@[0].slice@.len() == 0, r@.last().slice@.len() == 0,
        forall|i: int| 0 <= i < r@.len() ==> ((#[trigger] r@[i]).token is InputStart <==> i == 0),
        forall|i: int| 0 <= i < r@.len() ==> ((#[trigger] r@[i]).token is InputEnd <==> i == r@.len() - 1),
//@pre
    proof { lex_fine_all(text@); bi_ends(text@); reveal_strlit(""); }
    let ghost l = lex(text@)->Some_0;
//@outside 0
    let ghost ps = pairs@;
//@loop 0 it
    invariant
        it.seq() == ps, pairs_of(text@, l, ps), ended(l), l.len() == ps.len(), all_right(text@, l),
        tokens@.len() == it.index() + 1,
        tokens@[0].token is InputStart && tokens@[0].slice@.len() == 0 && tokens@[0].span.start == 0 && tokens@[0].span.end == 0,
        forall|i: int| 1 <= i < tokens@.len() ==> made((#[trigger] tokens@[i]), ps[i - 1]),
//@at 0 `tokens.push(`
    proof {
        let i = it.index() as int;
        assert(ps[it.index()] == vf_p); assert(pair_of(text@, l, i, ps[it.index()]));
        width_take(l, i);
        if i < l.len() - 1 {
            assert(right(text@, l, i));
            let t = text@.skip(width(l.take(i)) as int);
            assert(t.take(l[i].1 as int) =~= vf_p.text@);
            assert(rule_of(vf_p.rule, t) == Some(vf_p.text@.len()));
        }
        assert(matched(vf_p.rule, vf_p.text@));
    }
//@after 0
    proof {
        let a = tokens@;
        bi_ends(text@);
        lex_fine_all(text@);
        assert(l.take(0) =~= Seq::empty());
        assert(l.take(l.len() as int) =~= l);
        assert(tok_ok(text@, a[0])) by { reveal(shaped); assert(a[0].slice@ =~= text@.subrange(0, 0)); }
        assert forall|i: int| 1 <= i < a.len() implies tok_ok(text@, #[trigger] a[i]) by {
            assert(made(a[i], ps[i - 1]));
            assert(pair_of(text@, l, i - 1, ps[i - 1]));
            let (x, y) = (width(l.take(i - 1)) as int, width(l.take(i)) as int);
            ci_bi(text@, x); ci_bi(text@, y); bi_mono(text@, x, y);
        }
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] adj(a, i) by {
            assert(made(a[i + 1], ps[i]));
            assert(pair_of(text@, l, i, ps[i]));
            if i > 0 { assert(made(a[i], ps[i - 1])); assert(pair_of(text@, l, i - 1, ps[i - 1])); }
        }
        assert(made(a.last(), ps[l.len() - 1]));
        assert(pair_of(text@, l, l.len() - 1, ps[l.len() - 1]));
        assert(l.take(l.len() as int).drop_last() =~= l.take(l.len() - 1));
        reveal(covers);
        assert(covers(text@, a));
        covers_all(text@, a);
    }
//@end
}
pub open spec fn made(t: ExtractedToken, p: Pair) -> bool { t.slice == p.text && shaped(t.token, t.slice@) && t.span.start == p.from && t.span.end == p.to && (t.token is InputEnd <==> p.rule is EOI) && !(t.token is InputStart) }
//@use tokenization
//@fn src/tokenizer.rs tokenize r
//@spec
    ensures r.wf(), r.full_text.text == text, run_on(r.tokens@) == text@,
//@end
