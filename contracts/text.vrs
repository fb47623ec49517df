// C10, C16, C23: the text behind the tokens.
//@use strx
//@use parser
pub type Toks<'t> = Seq<ExtractedToken<'t>>;
pub open spec fn all_of(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == c }
pub open spec fn breaks(c: char) -> bool { c == '\n' || c == '\r' }
pub open spec fn alnum(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
// {$name}
pub open spec fn var_text(s: Seq<char>) -> bool { s.len() >= 4 && s[0] == '{' && s[1] == '$' && s.last() == '}' && forall|i: int| 2 <= i < s.len() - 1 ==> alnum(#[trigger] s[i]) }
// One to six plus signs, and perhaps an asterisk.
pub open spec fn head_text(s: Seq<char>) -> bool {
    let n = if s.len() > 0 && s.last() == '*' { s.len() - 1 } else { s.len() as int };
    1 <= n <= 6 && forall|i: int| 0 <= i < n ==> #[trigger] s[i] == '+'
}
// What a token of each kind looks like.
#[verifier::opaque]
pub open spec fn shaped(t: Token, s: Seq<char>) -> bool {
    match t {
        Token::LeftBracket => s.len() == 1 && s[0] == '[',
        Token::LeftBracketAnchor => s.len() == 2 && s[0] == '[' && s[1] == '#',
        Token::LeftBracketStar => s.len() == 2 && s[0] == '[' && s[1] == '*',
        Token::RightBracket => s.len() == 1 && s[0] == ']',
        Token::LeftBlock => s.len() == 2 && s[0] == '[' && s[1] == '[',
        Token::LeftBlockEnd => s.len() == 3 && s[0] == '[' && s[1] == '[' && s[2] == '/',
        Token::LeftBlockAnchor => s.len() == 3 && s[0] == '[' && s[1] == '[' && s[2] == '#',
        Token::LeftBlockStar => s.len() == 3 && s[0] == '[' && s[1] == '[' && s[2] == '*',
        Token::LeftMath => s.len() == 3 && s[0] == '[' && s[1] == '[' && s[2] == '$',
        Token::LeftParentheses => s.len() == 2 && s[0] == '(' && s[1] == '(',
        Token::RightBlock => s.len() == 2 && s[0] == ']' && s[1] == ']',
        Token::RightMath => s.len() == 3 && s[0] == '$' && s[1] == ']' && s[2] == ']',
        Token::RightParentheses => s.len() == 2 && s[0] == ')' && s[1] == ')',
        Token::DoubleDash => s.len() == 2 && s[0] == '-' && s[1] == '-',
        Token::DoubleTilde => s.len() == 2 && s[0] == '~' && s[1] == '~',
        Token::LeftDoubleAngle => s.len() == 2 && s[0] == '<' && s[1] == '<',
        Token::Pipe => s.len() == 1 && s[0] == '|',
        Token::Equals => s.len() == 1 && s[0] == '=',
        Token::Colon => s.len() == 1 && s[0] == ':',
        Token::Underscore => s.len() == 1 && s[0] == '_',
        Token::Bold => s.len() == 2 && s[0] == '*' && s[1] == '*',
        Token::Italics => s.len() == 2 && s[0] == '/' && s[1] == '/',
        Token::Underline => s.len() == 2 && s[0] == '_' && s[1] == '_',
        Token::Superscript => s.len() == 2 && s[0] == '^' && s[1] == '^',
        Token::Subscript => s.len() == 2 && s[0] == ',' && s[1] == ',',
        Token::LeftMonospace => s.len() == 2 && s[0] == '{' && s[1] == '{',
        Token::RightMonospace => s.len() == 2 && s[0] == '}' && s[1] == '}',
        Token::Color => s.len() == 2 && s[0] == '#' && s[1] == '#',
        Token::Raw => s.len() == 2 && s[0] == '@' && s[1] == '@',
        Token::LeftRaw => s.len() == 2 && s[0] == '@' && s[1] == '<',
        Token::RightRaw => s.len() == 2 && s[0] == '>' && s[1] == '@',
        Token::BulletItem => s.len() == 1 && s[0] == '*',
        Token::NumberedItem => s.len() == 1 && s[0] == '#',
        Token::LeftLink => s.len() == 3 && s[0] == '[' && s[1] == '[' && s[2] == '[',
        Token::LeftLinkStar => s.len() == 4 && s[0] == '[' && s[1] == '[' && s[2] == '[' && s[3] == '*',
        Token::RightLink => s.len() == 3 && s[0] == ']' && s[1] == ']' && s[2] == ']',
        Token::TableColumn => s.len() == 2 && s[0] == '|' && s[1] == '|',
        Token::TableColumnLeft => s.len() == 3 && s[0] == '|' && s[1] == '|' && s[2] == '<',
        Token::TableColumnRight => s.len() == 3 && s[0] == '|' && s[1] == '|' && s[2] == '>',
        Token::TableColumnCenter => s.len() == 3 && s[0] == '|' && s[1] == '|' && s[2] == '=',
        Token::TableColumnTitle => s.len() == 3 && s[0] == '|' && s[1] == '|' && s[2] == '~',
        Token::LeftComment => s.len() == 4 && s[0] == '[' && s[1] == '!' && s[2] == '-' && s[3] == '-',
        Token::RightComment => s.len() == 3 && s[0] == '-' && s[1] == '-' && s[2] == ']',
        Token::TripleDash => s.len() >= 3 && all_of(s, '-'),
        Token::ClearFloatBoth => s.len() >= 3 && all_of(s, '~'),
        Token::ClearFloatLeft => s.len() >= 4 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '~' || s[i] == '<',
        Token::ClearFloatRight => s.len() >= 4 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '~' || s[i] == '>',
        Token::Quote => s.len() >= 1 && all_of(s, '>'),
        Token::Heading => head_text(s),
        Token::LineBreak => 1 <= s.len() <= 2 && forall|i: int| 0 <= i < s.len() ==> breaks(#[trigger] s[i]),
        Token::ParagraphBreak => s.len() >= 2 && forall|i: int| 0 <= i < s.len() ==> breaks(#[trigger] s[i]),
        Token::Whitespace => s.len() >= 1 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ' ' || s[i] == '\t',
        Token::Identifier => s.len() >= 1 && forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]),
        Token::Variable => var_text(s),
        Token::String => s.len() >= 2 && s[0] == '"' && s.last() == '"',
        Token::Url => s.len() >= 7 && ((s[0] == 'h' && s[1] == 't' && s[2] == 't' && s[3] == 'p') || (s[0] == 'f' && s[1] == 't' && s[2] == 'p' && s[3] == ':' && s[4] == '/' && s[5] == '/')),
        Token::Email => s.len() >= 5,
        Token::Other => s.len() == 1,
        Token::InputStart | Token::InputEnd => s.len() == 0,
    }
}
// A token's range lies in the text, on character boundaries, and its slice is what is there.
pub open spec fn tok_ok(t: Seq<char>, x: ExtractedToken) -> bool {
    &&& x.span.start <= x.span.end
    &&& is_b(t, x.span.start as nat) && is_b(t, x.span.end as nat)
    &&& x.slice@ == t.subrange(ci(t, x.span.start as nat), ci(t, x.span.end as nat))
    &&& shaped(x.token, x.slice@)
}
pub open spec fn adj(a: Toks, i: int) -> bool { a[i].span.end == a[i + 1].span.start }
// Tokens cover the text from the first one on, without gaps or overlaps.
#[verifier::opaque]
pub open spec fn covers(t: Seq<char>, a: Toks) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> tok_ok(t, #[trigger] a[i])
    &&& forall|i: int| 0 <= i < a.len() - 1 ==> #[trigger] adj(a, i)
    &&& a.len() > 0 ==> a.last().span.end == len8(t)
}
pub proof fn covers_skip(t: Seq<char>, a: Toks, k: int)
    requires covers(t, a), 0 <= k <= a.len(),
    ensures covers(t, a.skip(k)),
{
    reveal(covers);
    let b = a.skip(k);
    assert forall|i: int| 0 <= i < b.len() implies tok_ok(t, #[trigger] b[i]) by { assert(b[i] == a[i + k]); }
    assert forall|i: int| 0 <= i < b.len() - 1 implies #[trigger] adj(b, i) by { assert(adj(a, i + k)); assert(b[i] == a[i + k]); assert(b[i + 1] == a[i + 1 + k]); }
    if b.len() > 0 { assert(b.last() == a.last()); }
}
pub proof fn ci_mono(t: Seq<char>, a: nat, b: nat)
    requires is_b(t, a), is_b(t, b), a <= b,
    ensures 0 <= ci(t, a) <= ci(t, b) <= t.len(),
{
    let i = choose|i: int| 0 <= i <= t.len() && a == #[trigger] bi(t, i);
    let j = choose|j: int| 0 <= j <= t.len() && b == #[trigger] bi(t, j);
    ci_bi(t, i); ci_bi(t, j);
    if j < i { bi_mono(t, j, i); }
}
pub proof fn covers_order(t: Seq<char>, a: Toks, i: int, j: int)
    requires covers(t, a), 0 <= i <= j < a.len(),
    ensures
        tok_ok(t, a[i]), tok_ok(t, a[j]), a[i].span.start <= a[j].span.start, a[i].span.end <= a[j].span.end, a[i].span.start <= a[j].span.end,
        i < j ==> a[i].span.end <= a[j].span.start,
    decreases j - i,
{
    reveal(covers);
    if i < j { covers_order(t, a, i, j - 1); assert(adj(a, j - 1)); }
}
// The slices of tokens, one after the other.
pub open spec fn run_on(a: Toks) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { Seq::empty() } else { run_on(a.drop_last()) + a.last().slice@ } }
pub proof fn cut_in_two(t: Seq<char>, i: int, j: int, k: int)
    requires 0 <= i <= j <= k <= t.len(),
    ensures t.subrange(i, k) == t.subrange(i, j) + t.subrange(j, k),
{ assert(t.subrange(i, k) =~= t.subrange(i, j) + t.subrange(j, k)); }
// What is cut out between two tokens is what the tokens there say.
pub proof fn covers_adj(t: Seq<char>, a: Toks, i: int)
    requires covers(t, a), 0 <= i < a.len() - 1,
    ensures a[i].span.end == a[i + 1].span.start,
{ reveal(covers); assert(adj(a, i)); }
pub proof fn covers_text(t: Seq<char>, a: Toks, i: int, j: int)
    requires covers(t, a), 0 <= i <= j < a.len(),
    ensures t.subrange(ci(t, a[i].span.start as nat), ci(t, a[j].span.end as nat)) == run_on(a.subrange(i, j + 1)),
    decreases j - i,
{
    let s = a.subrange(i, j + 1);
    let u = ci(t, a[i].span.start as nat);
    let v = ci(t, a[j].span.start as nat);
    let w = ci(t, a[j].span.end as nat);
    assert(s.last() == a[j]);
    assert(s.drop_last() =~= a.subrange(i, j));
    covers_order(t, a, i, j);
    ci_mono(t, a[i].span.start as nat, a[j].span.start as nat);
    ci_mono(t, a[j].span.start as nat, a[j].span.end as nat);
    cut_in_two(t, u, v, w);
    assert(run_on(s) == run_on(a.subrange(i, j)) + t.subrange(v, w));
    if i == j {
        assert(a.subrange(i, j) =~= Seq::<ExtractedToken>::empty());
        assert(t.subrange(u, v) =~= Seq::<char>::empty());
    } else {
        covers_text(t, a, i, j - 1);
        covers_adj(t, a, j - 1);
    }
}
// Token for token, the whole text is there.
pub proof fn covers_all(t: Seq<char>, a: Toks)
    requires covers(t, a), a.len() > 0, a[0].span.start == 0,
    ensures run_on(a) == t,
{
    reveal(covers);
    covers_text(t, a, 0, a.len() - 1);
    bi_ends(t);
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(t.subrange(0, t.len() as int) =~= t);
}
impl<'t> FullText<'t> {
//@fn src/text.rs @ `impl<'t> FullText<'t>` new r
//@spec
    ensures r.text == text,
//@end
//@fn src/text.rs @ `impl<'t> FullText<'t>` inner r
//@spec
    ensures r == self.text,
//@end
//@fn src/text.rs @ `impl<'t> FullText<'t>` len r
//@methods len
//@spec
    ensures r == len8(self.text@),
//@end
//@fn src/text.rs @ `impl<'t> FullText<'t>` slice_impl r
//@sub `&self.text[start..end]` => `vf_slice(self.text, start, end)`
//@spec
    requires start <= end, is_b(self.text@, start as nat), is_b(self.text@, end as nat),
    ensures r@ == self.text@.subrange(ci(self.text@, start as nat), ci(self.text@, end as nat)),
//@end
//@fn src/text.rs @ `impl<'t> FullText<'t>` slice r
//@spec
    requires tok_ok(self.text@, *start_token), tok_ok(self.text@, *end_token), start_token.span.start <= end_token.span.end,
    ensures r@ == self.text@.subrange(ci(self.text@, start_token.span.start as nat), ci(self.text@, end_token.span.end as nat)),
//@end
//@fn src/text.rs @ `impl<'t> FullText<'t>` slice_partial r
//@spec
    requires tok_ok(self.text@, *start_token), tok_ok(self.text@, *end_token), start_token.span.start <= end_token.span.start,
    ensures r@ == self.text@.subrange(ci(self.text@, start_token.span.start as nat), ci(self.text@, end_token.span.start as nat)),
//@end
}
