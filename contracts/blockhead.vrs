// C01, C09, C18: the heads of blocks.
//@import blockparse
//@pin src/parsing/rule/impls/block/arguments.rs `#[derive(Debug, Clone, Default)] pub struct Arguments`
impl<'t> Arguments<'t> {
//@fn src/parsing/rule/impls/block/arguments.rs @ `impl<'t> Arguments<'t>` new r
//@sub `Arguments::default()` => `Arguments { inner: CaseMap::new() }`
//@spec
    ensures r.inner@ == Map::<Seq<char>, Cow<'t, str>>::empty(),
//@end
}
//@pin src/parsing/rule/impls/block/parser.rs `static ARGUMENT_KEY: Lazy<Regex> = Lazy::new(|| Regex::new(r"[A-Za-z0-9_\-]+").unwrap());`
//@assume regular expression [A-Za-z0-9_\-]+ is found in the texts with an ASCII letter, digit, underscore or hyphen
pub open spec fn keyish(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' || c == '_' }
#[verifier::external_body]
pub fn vf_key(s: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && keyish(#[trigger] s@[i]) { unimplemented!() }
pub open spec fn keyed(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && keyish(#[trigger] s[i]) }
pub open spec fn blank(t: Token) -> bool { skippable(t) }
pub open spec fn string_of(s: Seq<char>) -> Seq<char> { if quoted(s) { resolve(s.subrange(1, s.len() - 1), false) } else { s } }
// From the m-th token on: a key, a sign, a string, up to the n-th token.
pub struct Pair<'t> { pub key: Seq<char>, pub value: Cow<'t, str> }
pub open spec fn key_at<'t>(s: Toks<'t>, m: int, a: int, b: int, key: Seq<char>) -> bool {
    &&& m <= a < b < s.len() && key == run_on(s.subrange(a, b)) && !blank(s[a].token) && (forall|i: int| m <= i < a ==> blank((#[trigger] s[i]).token))
    &&& forall|i: int| a <= i < b ==> keyed((#[trigger] s[i]).slice@) && !(s[i].token is RightBlock)
}
pub open spec fn value_at<'t>(s: Toks<'t>, b: int, c: int, n: int, value: Seq<char>) -> bool {
    &&& (c == b || (c == b + 1 && s[b].token is Whitespace)) && s[c].token is Equals
    &&& (n == c + 2 || (n == c + 3 && s[c + 1].token is Whitespace)) && 0 <= c && n < s.len()
    &&& s[n - 1].token is String && value == string_of(s[n - 1].slice@)
}
pub open spec fn argument_with<'t>(s: Toks<'t>, m: int, a: int, b: int, c: int, n: int, p: Pair<'t>) -> bool { key_at(s, m, a, b, p.key) && value_at(s, b, c, n, p.value@) }
pub open spec fn argument<'t>(s: Toks<'t>, m: int, n: int, p: Pair<'t>) -> bool { exists|a: int, b: int, c: int| #[trigger] argument_with(s, m, a, b, c, n, p) }
pub open spec fn stops<'t>(s: Toks<'t>, at: Seq<int>) -> bool { at.len() > 0 && at[0] == 0 && forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < s.len() }
// All arguments, one after the other.
#[verifier::opaque]
pub open spec fn arguments_at<'t>(s: Toks<'t>, at: Seq<int>, l: Seq<Pair<'t>>) -> bool {
    stops(s, at) && at.len() == l.len() + 1 && forall|i: int| 0 <= i < l.len() ==> argument(s, at[i], at[i + 1], #[trigger] l[i])
}
pub open spec fn given<'t>(l: Seq<Pair<'t>>) -> Map<Seq<char>, Cow<'t, str>>
    decreases l.len(),
{ if l.len() == 0 { Map::empty() } else { given(l.drop_last()).insert(lower(l.last().key), l.last().value) } }
pub open spec fn head_of<'r, 't>(o: &Parser<'r, 't>, at: Seq<int>, l: Seq<Pair<'t>>, m: Map<Seq<char>, Cow<'t, str>>) -> bool { arguments_at(o.ahead(), at, l) && m == given(l) }
// What a head says: no argument but those written there, and the last one with a name counts.
pub open spec fn head<'r, 't>(o: &Parser<'r, 't>, more: bool, m: Map<Seq<char>, Cow<'t, str>>) -> bool {
    if more { exists|at: Seq<int>, l: Seq<Pair<'t>>| #[trigger] head_of(o, at, l, m) } else { m == Map::<Seq<char>, Cow<'t, str>>::empty() }
}
pub proof fn one_more<'t>(s: Toks<'t>, at: Seq<int>, l: Seq<Pair<'t>>, pair: Pair<'t>, n: int)
    requires arguments_at(s, at, l), 0 <= n < s.len(), argument(s, at.last(), n, pair),
    ensures arguments_at(s, at.push(n), l.push(pair)), given(l.push(pair)) == given(l).insert(lower(pair.key), pair.value), at.push(n).last() == n,
{
    reveal(arguments_at);
    let at1 = at.push(n); let l1 = l.push(pair);
    assert forall|i: int| 0 <= i < l1.len() implies argument(s, at1[i], at1[i + 1], #[trigger] l1[i]) by { if i < l.len() { assert(l[i] == l1[i]); assert(at[i] == at1[i] && at[i + 1] == at1[i + 1]); } }
    assert(l1.drop_last() =~= l);
    assert(stops(s, at1)) by { assert forall|i: int| 0 <= i < at1.len() implies 0 <= #[trigger] at1[i] < s.len() by { if i < at.len() { assert(at1[i] == at[i]); } } }
}
// The head ends after n tokens: with its mark, if that is still to come, and the line end after it, if the block takes that.
pub open spec fn head_done(o: &Parser, f: &Parser, lines: bool, more: bool, n: int) -> bool {
    let e = if more { n + 1 } else { n };
    (more ==> nth_is(o, n, Token::RightBlock)) && o.remaining@.len() - f.remaining@.len() == (if lines && nth_is(o, e, Token::LineBreak) { e + 1 } else { e })
}
// ... after all arguments, blanks and words without a value.
#[verifier::opaque]
pub open spec fn loose(o: &Parser, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> skippable((#[trigger] o.ahead()[i]).token) || keyed(o.ahead()[i].slice@) }
pub proof fn loosely<'t>(o: &Parser<'_, 't>, m: int, a: int, n: int)
    requires forall|i: int| m <= i < a ==> blank((#[trigger] o.ahead()[i]).token), forall|i: int| a <= i < n ==> keyed((#[trigger] o.ahead()[i]).slice@),
    ensures loose(o, m, n),
{ reveal(loose); }
pub open spec fn head_over<'r, 't>(o: &Parser<'r, 't>, f: &Parser<'r, 't>, lines: bool, more: bool, m: Map<Seq<char>, Cow<'t, str>>) -> bool {
    if more { exists|at: Seq<int>, l: Seq<Pair<'t>>, n: int| #[trigger] head_of(o, at, l, m) && #[trigger] head_done(o, f, lines, more, n) && at.last() <= n && loose(o, at.last(), n) } else { head_done(o, f, lines, more, 0) }
}
impl<'r: 't, 't> Parser<'r, 't> {
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_head_block r
//@spec
    requires old(self).wf(),
    ensures final(self).read(old(self)), r.is_ok() == (in_head ==> old(self).current.token is RightBlock), r.is_ok() ==> head_done(old(self), final(self), block_rule.accepts_newlines, in_head, 0),
//@pre
    broadcast use reading;
    let ghost p0 = *self;
    proof { from_refl(&*self); assert(p0.ahead()[0] == *p0.current); }
//@at 0 `if self.current().token`
    proof { nth_from(&p0, *self); assert(self.ahead()[0] == *self.current); assert(nth_is(&*self, 0, Token::LineBreak) == (self.current.token is LineBreak)); }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_head_none r
//@spec
    requires old(self).wf(),
    // nothing but a blank is passed over
    ensures final(self).read(old(self)), r.is_ok() ==> head_done(old(self), final(self), block_rule.accepts_newlines, in_head, if nth_is(old(self), 0, Token::Whitespace) { 1 } else { 0 }),
//@pre
    broadcast use reading;
    let ghost p0 = *self;
    proof { from_refl(&*self); assert(p0.ahead()[0] == *p0.current); }
//@at 0 `self.get_head_block`
    proof { assert(self.ahead()[0] == *self.current); nth_from(&p0, *self); }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_head_map r
//@sub `ARGUMENT_KEY.is_match(current.slice)` => `vf_key(current.slice)`
//@spec
    requires old(self).wf(),
    ensures final(self).read(old(self)), match r { Ok(m) => head(old(self), in_head, m.inner@) && head_over(old(self), final(self), block_rule.accepts_newlines, in_head, m.inner@), Err(_) => true },
//@pre
    broadcast use reading;
    let ghost p0 = *self;
    let ghost s = p0.ahead();
    let ghost mut at: Seq<int> = seq![0];
    let ghost mut l: Seq<Pair<'t>> = Seq::empty();
    proof { from_refl(&p0); assert(arguments_at(s, at, l)) by { reveal(arguments_at); } assert(given(l) == Map::<Seq<char>, Cow<'t, str>>::empty()); }
//@loop 0
    invariant_except_break
        at.last() == p0.remaining@.len() - self.remaining@.len(),
    invariant
        *old(self) == p0, p0.wf(), self.read(&p0), s == p0.ahead(), in_head,
        arguments_at(s, at, l), map.inner@ == given(l), at.last() <= p0.remaining@.len() - self.remaining@.len(),
    ensures
        loose(&p0, at.last(), p0.remaining@.len() - self.remaining@.len()),
    decreases self.remaining@.len(),
//@in 0
    broadcast use reading;
    let ghost m = at.last();
    let ghost mut a: int = 0;
    let ghost mut b: int = 0;
    let ghost mut p3 = *self;
    let ghost pl = *self;
//@at 0 `let start`
    let ghost p1 = *self;
    proof { a = p0.remaining@.len() - p1.remaining@.len(); from_refl(&p1); assert(s[a] == p1.ahead()[0]); assert(!blank(p1.current.token));
        assert forall|i: int| m <= i < a implies blank((#[trigger] s[i]).token) by { assert(s[i] == pl.ahead()[i - m]); }
    }
//@loop 1
    invariant_except_break
        !args_finished,
    invariant
        *old(self) == p0, p1.read(&p0), self.read(&p1), self.read(&p0), s == p0.ahead(), start == p1.current, a == p0.remaining@.len() - p1.remaining@.len(),
        !blank(s[a].token), s[a] == *p1.current, forall|i: int| m <= i < a ==> blank((#[trigger] s[i]).token), 0 <= m <= a,
        forall|i: int| a <= i < p0.remaining@.len() - self.remaining@.len() ==> keyed((#[trigger] s[i]).slice@) && !(s[i].token is RightBlock),
    ensures
        args_finished || self.remaining@.len() < p1.remaining@.len(),
    decreases self.remaining@.len(),
//@in 1
    broadcast use reading;
    let ghost p2 = *self;
    proof { from_refl(&p2); assert(s[p0.remaining@.len() - p2.remaining@.len()] == p2.ahead()[0]); if p2.remaining@.len() == p1.remaining@.len() { assert(p2.ahead()[0] == p1.ahead()[0]); } }
//@at 0 `if args_finished`
    proof { if args_finished { loosely(&p0, m, a, p0.remaining@.len() - self.remaining@.len()); } }
//@at 0 `self.full_text().slice_partial(start, end)`
    proof {
        p3 = *self;
        b = p0.remaining@.len() - p3.remaining@.len();
        let t = p0.full_text.text@;
        assert(*start == s[a]);
        assert(s[b] == p3.ahead()[0]);
        covers_order(t, s, a, b);
        covers_text(t, s, a, b - 1); covers_adj(t, s, b - 1);
        assert(p3.read(&p0)) by { from_trans(&p0, &p1, &p3); }
    }
//@at 0 `self.get_optional_space()?`
    proof { assert(key_at(s, m, a, b, key@)); from_refl(&p3); }
//@at 0 `self.get_token(Token::Equals`
    let ghost p4 = *self;
    let ghost c = p0.remaining@.len() - p4.remaining@.len();
    proof { assert(s[c] == p4.ahead()[0]); from_refl(&p4); }
//@at 1 `self.get_optional_space()?`
    let ghost p5 = *self;
    proof { assert(s[c + 1] == p5.ahead()[0]); from_refl(&p5); }
//@at 0 `let value_raw`
    let ghost p6 = *self;
    proof { assert(s[p0.remaining@.len() - p6.remaining@.len()] == p6.ahead()[0]); from_refl(&p6); }
//@at 0 `map.insert`
    proof {
        let n = p0.remaining@.len() - self.remaining@.len();
        let pair = Pair { key: key@, value };
        assert(value_at(s, b, c, n, value@));
        assert(argument_with(s, m, a, b, c, n, pair));
        one_more(s, at, l, pair, n);
        at = at.push(n); l = l.push(pair);
    }
//@at 0 `self.get_head_block`
    let ghost n = p0.remaining@.len() - self.remaining@.len();
    let ghost p8 = *self;
    proof { if in_head { assert(head_of(&p0, at, l, map.inner@)); assert(loose(&p0, at.last(), n)); } nth_from(&p0, *self); }
//@at 0 `Ok(map)`
    proof { if in_head { assert(head_done(&p8, self, block_rule.accepts_newlines, true, 0)); assert(head_done(&p0, self, block_rule.accepts_newlines, true, n)); } }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_head_name_map r
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH,
    ensures final(self).read(old(self)), match r { Ok(o) => in_head && name_head(old(self), o.0@, o.1.inner@) && name_over(old(self), final(self), block_rule.accepts_newlines, o.0@, o.1.inner@), Err(_) => true },
//@pre
    broadcast use reading;
    let ghost p0 = *self;
    proof { from_refl(&p0); }
//@at 0 `let arguments`
    let ghost p1 = *self;
//@at 0 `Ok(`
    proof { assert(name_then(&p0, subname@, in_head, &p1, arguments.inner@)); assert(name_ends(&p0, self, block_rule.accepts_newlines, subname@, arguments.inner@, in_head, &p1)); }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_head_value r
//@sub `collect_text(self, self.rule(), &[$C], &[$N], Some($E),)?` => `{ let vf_rule = self.rule(); let vf_c = [$C]; let vf_n = [$N]; proof { text_between(&p0, p0, 0, Token::RightBlock); } let vf_s = collect_text(self, vf_rule, &vf_c, &vf_n, Some($E))?; proof { assert(between(&p0, 0, Token::RightBlock, vf_s@)); } vf_s }`
//@sub `convert(self, argument)?` => `convert.call(self, argument)?`
//@sig
pub fn get_head_value<F: Converts<'r, 't, T>, T>(&mut self, block_rule: &BlockRule, in_head: bool, convert: F) -> (r: Result<T, ParseError>)
//@spec
    requires old(self).wf(), old(self).depth <= MAX_RECURSION_DEPTH,
    ensures final(self).read(old(self)), match r { Ok(o) => value_head(old(self), in_head, convert, o) && value_over(old(self), final(self), block_rule.accepts_newlines, in_head), Err(_) => true },
//@pre
    broadcast use reading, running;
    let ghost p0 = *self;
    proof { from_refl(&p0); ran_refl(&p0); }
//@at 0 `let value`
    let ghost given = match argument { Some(x) => Some(x@), None => None };
    proof { assert(value_in(&p0, in_head, given)); assert(self.read(&p0)); }
//@at 0 `self.get_head_block(block_rule, false)`
    let ghost p9 = *self;
    let ghost b = p0.remaining@.len() - p9.remaining@.len() - 1;
    proof { nth_from(&p0, p9); if in_head { assert(passed(&p0, &p9, 0, Token::RightBlock)); } }
//@at 0 `Ok(value)`
    proof {
        assert(converts(&p0, in_head, convert, value, given));
        if in_head { let s = choose|s: Seq<char>| #[trigger] upto(&p0, 0, Token::RightBlock, s, b); assert(upto(&p0, 0, Token::RightBlock, s, b)); assert(head_done(&p9, self, block_rule.accepts_newlines, false, 0)); assert(head_done(&p0, self, block_rule.accepts_newlines, true, b)); }
    }
//@end
//@fn src/parsing/rule/impls/block/parser.rs @ `impl<'r, 't> Parser<'r, 't>` set_block
//@spec
    ensures final(self).aside(old(self)), final(self).rule.name == block_rule.name,
//@end
//@fn src/parsing/rule/impls/block/blocks/module/parser.rs @ `impl<'r, 't> Parser<'r, 't>` set_module
//@spec
    ensures final(self).aside(old(self)), final(self).rule.name == module_rule.name,
//@end
    // Another rule is named in errors.
    pub open spec fn aside(&self, o: &Self) -> bool { *self == (Parser { rule: self.rule, ..*o }) }
}
pub open spec fn name_ends<'r, 't>(o: &Parser<'r, 't>, f: &Parser<'r, 't>, lines: bool, name: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>, more: bool, q: &Parser<'r, 't>) -> bool { names_one(o, name, more, q) && head_over(q, f, lines, more, m) }
pub open spec fn name_over<'r, 't>(o: &Parser<'r, 't>, f: &Parser<'r, 't>, lines: bool, name: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>) -> bool { exists|more: bool, q: Parser<'r, 't>| #[trigger] name_ends(o, f, lines, name, m, more, &q) }
pub open spec fn value_over<'r, 't>(o: &Parser<'r, 't>, f: &Parser<'r, 't>, lines: bool, more: bool) -> bool {
    if more { exists|s: Seq<char>, b: int| #[trigger] upto(o, 0, Token::RightBlock, s, b) && head_done(o, f, lines, true, b) } else { head_done(o, f, lines, false, 0) }
}
pub proof fn nth_from<'r, 't>(p: &Parser<'r, 't>, q: Parser<'r, 't>)
    requires q.from(p),
    ensures forall|i: int, t: Token| #![trigger nth_is(&q, i, t)] i >= 0 ==> nth_is(&q, i, t) == nth_is(p, p.remaining@.len() - q.remaining@.len() + i, t),
{
    assert(q.ahead().len() == q.remaining@.len() + 1);
    assert forall|i: int| 0 <= i < q.ahead().len() implies #[trigger] q.ahead()[i] == p.ahead()[p.remaining@.len() - q.remaining@.len() + i] by {}
}
pub open spec fn name_then<'r, 't>(o: &Parser<'r, 't>, name: Seq<char>, more: bool, q: &Parser<'r, 't>, m: Map<Seq<char>, Cow<'t, str>>) -> bool { names_one(o, name, more, q) && head(q, more, m) }
pub open spec fn name_head<'r, 't>(o: &Parser<'r, 't>, name: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>) -> bool { exists|more: bool, q: Parser<'r, 't>| #[trigger] name_then(o, name, more, &q, m) }
// A closure which makes something of the text in the head.
pub trait Converts<'r, 't, T>: Sized {
    spec fn gives(self, value: Option<Seq<char>>, r: T) -> bool;
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<T, ParseError>)
        ensures match r { Ok(o) => self.gives(match value { Some(x) => Some(x@), None => None }, o), Err(_) => true };
}
pub open spec fn value_in<'r, 't>(o: &Parser<'r, 't>, more: bool, v: Option<Seq<char>>) -> bool { match v { Some(s) => more && between(o, 0, Token::RightBlock, s), None => !more } }
pub open spec fn converts<'r, 't, F: Converts<'r, 't, T>, T>(o: &Parser<'r, 't>, more: bool, f: F, r: T, v: Option<Seq<char>>) -> bool { value_in(o, more, v) && f.gives(v, r) }
// What is made of the text of the head, if there is one.
pub open spec fn value_head<'r, 't, F: Converts<'r, 't, T>, T>(o: &Parser<'r, 't>, more: bool, f: F, r: T) -> bool { exists|v: Option<Seq<char>>| #[trigger] converts(o, more, f, r, v) }
