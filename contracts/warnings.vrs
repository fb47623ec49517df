// C16: a warning points at a token of the text, and so can be converted.
//@import utf16 tokens
//@assume the tokens which the parser holds are those of the text it parses (see unit parser: it is given those of extract_all() and hands them on)
//@assume a warning is made by ParseError::new() (its fields are private to error.rs)
//@pin src/parsing/error.rs `pub struct ParseError { token: Token, rule: Cow<'static, str>, span: Range<usize>, kind: ParseErrorKind, }`
impl Rule {
    #[verifier::external_body]
    pub fn name(self) -> &'static str { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_span(s: &Range<usize>) -> (r: Range<usize>) ensures r == *s { unimplemented!() }
#[verifier::external_body]
pub fn vf_borrowed(s: &'static str) -> (r: Cow<'static, str>) ensures r@ == s@ { unimplemented!() }
pub open spec fn in_text(t: Seq<char>, s: Range<usize>) -> bool { s.start <= s.end && s.end <= len8(t) && is_b(t, s.start as nat) && is_b(t, s.end as nat) }
pub open spec fn map_of(m: Utf16IndexMap, t: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i <= t.len() ==> #[trigger] m.map@.contains_key(len8(t.take(i)) as usize)
    &&& forall|k: usize| #[trigger] m.map@.contains_key(k) ==> exists|i: int| 0 <= i <= t.len() && k == len8(t.take(i)) && m.map@[k] == len16(t.take(i))
}
impl ParseError {
//@fn src/parsing/error.rs @ `impl ParseError` new r
//@sub `Range::clone(&$X)` => `vf_span(&$X)`
//@sub `cow!($X)` => `vf_borrowed($X)`
//@spec
    ensures r.kind == kind, r.token == current.token, r.span == current.span,
//@end
//@fn src/parsing/error.rs @ `impl ParseError` token r
//@spec
    ensures r == self.token,
//@end
//@fn src/parsing/error.rs @ `impl ParseError` span r
//@sub `Range::clone(&$X)` => `vf_span(&$X)`
//@spec
    ensures r == self.span,
//@end
//@fn src/parsing/error.rs @ `impl ParseError` kind r
//@spec
    ensures r == self.kind,
//@end
    #[verifier::external_body]
    pub fn vf_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@fn src/parsing/error.rs @ `impl ParseError` to_utf16_indices r
//@sub `self.clone()` => `self.vf_clone()`
//@sig
pub fn to_utf16_indices(&self, map: &Utf16IndexMap, Ghost(t): Ghost<Seq<char>>) -> (r: Self)
//@spec
    requires map_of(*map, t), in_text(t, self.span),
    ensures r.token == self.token, r.kind == self.kind, r.rule == self.rule, r.span.start <= r.span.end,
        r.span.start == len16(t.take(ci(t, self.span.start as nat))), r.span.end == len16(t.take(ci(t, self.span.end as nat))),
//@pre
    proof { at16(*map, t, self.span.start); at16(*map, t, self.span.end); in_order(t, self.span.start, self.span.end); }
//@end
}
pub proof fn at16(m: Utf16IndexMap, t: Seq<char>, k: usize)
    requires map_of(m, t), is_b(t, k as nat),
    ensures m.map@.contains_key(k), m.map@[k] == len16(t.take(ci(t, k as nat))), 0 <= ci(t, k as nat) <= t.len(), len8(t.take(ci(t, k as nat))) == k,
{
    let i = ci(t, k as nat);
    assert(m.map@.contains_key(len8(t.take(i)) as usize));
    let j = choose|j: int| 0 <= j <= t.len() && k == len8(t.take(j)) && m.map@[k] == len16(t.take(j));
    if i < j { len8_mono(t, i, j); } else if j < i { len8_mono(t, j, i); }
}
pub proof fn in_order(t: Seq<char>, a: usize, b: usize)
    requires a <= b, is_b(t, a as nat), is_b(t, b as nat),
    ensures len16(t.take(ci(t, a as nat))) <= len16(t.take(ci(t, b as nat))),
{
    let (i, j) = (ci(t, a as nat), ci(t, b as nat));
    if i <= j { len8_mono(t, i, j); } else { len8_mono(t, j, i); }
}
// Every token of a text is in the text, so that every warning about one is, and a warning later in the text stays later.
pub proof fn tokens_in_text(t: Seq<char>, a: Toks, i: int)
    requires covers(t, a), 0 <= i < a.len(),
    ensures in_text(t, a[i].span),
{ covers_order(t, a, i, i); reveal(covers); let x = a[i].span; bi_ends(t); let (p, q) = (ci(t, x.end as nat), t.len() as int); len8_mono(t, p, q); assert(t.take(q) =~= t); }
