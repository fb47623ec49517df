// C13: what a page becomes with its includes in place, byte for byte.
//@import pageref
//@use strmap
//@assume INCLUDE_REGEX, pinned by its text, finds exactly the places `at_marker` describes, from left to right, and VARIABLE_REGEX, pinned by its text, those of `var_end`
//@assume the parser pest derives from includes/grammar.pest returns for a match its text, which is where the argument starts and is not empty, the page's name, and each argument with its name and value (`tree_of` names the result)
//@assume an includer's answers are whatever its relations `answers` and `misses` say; they may be anything
//@pin src/includes/includer/mod.rs `fn include_pages( &mut self, includes: &[IncludeRef<'t>], ) -> Result<Vec<FetchedPage<'t>>, Self::Error>; fn no_such_include( &mut self, page_ref: &PageRef<'t>, ) -> Result<Cow<'t, str>, Self::Error>;`

// ---- replacing parts of a text ----
pub struct Edit { pub a: int, pub e: int, pub t: Seq<char> }
pub open spec fn splice(s: Seq<char>, ds: Seq<Edit>, from: int) -> Seq<char>
    decreases ds.len(),
{ if ds.len() == 0 { s.skip(from) } else { s.subrange(from, ds[0].a) + ds[0].t + splice(s, ds.skip(1), ds[0].e) } }
// One after the other, within the text.
pub open spec fn apart(s: Seq<char>, ds: Seq<Edit>, from: int) -> bool
    decreases ds.len(),
{ if ds.len() == 0 { 0 <= from <= s.len() } else { 0 <= from <= ds[0].a < ds[0].e <= s.len() && apart(s, ds.skip(1), ds[0].e) } }
pub proof fn splice_from(s: Seq<char>, ds: Seq<Edit>, from: int, x: int)
    requires apart(s, ds, x), 0 <= from <= x,
    ensures apart(s, ds, from), splice(s, ds, from) == s.subrange(from, x) + splice(s, ds, x),
{
    if ds.len() == 0 { assert(s.skip(from) =~= s.subrange(from, x) + s.skip(x)); }
    else {
        let a = ds[0].a; let r = ds[0].t + splice(s, ds.skip(1), ds[0].e);
        assert(s.subrange(from, a) =~= s.subrange(from, x) + s.subrange(x, a));
        assert(splice(s, ds, from) =~= s.subrange(from, a) + r);
        assert(splice(s, ds, x) =~= s.subrange(x, a) + r);
        assert(splice(s, ds, from) =~= s.subrange(from, x) + splice(s, ds, x));
    }
}
pub proof fn apart_tail(s: Seq<char>, ds: Seq<Edit>, k: int)
    requires apart(s, ds, 0), 0 <= k < ds.len(),
    ensures 0 <= ds[k].a < ds[k].e <= s.len(), apart(s, ds.skip(k + 1), ds[k].e), apart(s, ds.skip(k), 0), ds.skip(k).skip(1) == ds.skip(k + 1),
    decreases k,
{
    apart_tail_at(s, ds, 0, k);
    splice_from(s, ds.skip(k), 0, ds[k].a);
}
pub proof fn apart_tail_at(s: Seq<char>, ds: Seq<Edit>, from: int, k: int)
    requires apart(s, ds, from), 0 <= k < ds.len(),
    ensures from <= ds[k].a < ds[k].e <= s.len(), apart(s, ds.skip(k + 1), ds[k].e), apart(s, ds.skip(k), ds[k].a), ds.skip(k).skip(1) == ds.skip(k + 1),
    decreases k,
{
    assert(ds.skip(k).skip(1) =~= ds.skip(k + 1));
    if k > 0 {
        apart_tail_at(s, ds.skip(1), ds[0].e, k - 1);
        assert(ds.skip(1).skip(k) =~= ds.skip(k + 1));
        assert(ds.skip(1).skip(k - 1) =~= ds.skip(k));
    } else { assert(ds.skip(0) =~= ds); }
}
// From the last to the first: one more edit in front of what has been done.
pub proof fn splice_front(s: Seq<char>, d: Edit, ds: Seq<Edit>)
    requires 0 <= d.a < d.e, apart(s, ds, d.e),
    ensures ({
        let u = splice(s, ds, 0);
        &&& d.e <= s.len() && d.e <= u.len()
        &&& bi(u, d.a) == bi(s, d.a) && bi(u, d.e) == bi(s, d.e)
        &&& u.take(d.a) + d.t + u.skip(d.e) == splice(s, seq![d] + ds, 0)
        &&& apart(s, seq![d] + ds, 0)
        &&& bi(s, d.a) <= bi(s, d.e)
    }),
{
    splice_from(s, ds, 0, d.e);
    apart_in(s, ds, d.e);
    let u = splice(s, ds, 0);
    let v = splice(s, ds, d.e);
    assert(u == s.subrange(0, d.e) + v);
    assert(u.take(d.a) =~= s.take(d.a));
    assert(u.take(d.e) =~= s.take(d.e));
    assert(u.skip(d.e) =~= v);
    let all = seq![d] + ds;
    assert(all.skip(1) =~= ds);
    assert(all[0] == d);
    assert(s.subrange(0, d.a) =~= s.take(d.a));
    bi_mono(s, d.a, d.e);
}
pub proof fn apart_in(s: Seq<char>, ds: Seq<Edit>, from: int)
    requires apart(s, ds, from),
    ensures 0 <= from <= s.len(),
    decreases ds.len(),
{ }

// ---- variables ----
pub open spec fn is_word(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_' || c == '-' }
pub open spec fn word_end(s: Seq<char>, i: int) -> int
    decreases s.len() - i,
{ if 0 <= i < s.len() && is_word(s[i]) { word_end(s, i + 1) } else { i } }
// Where "{$name}" at i ends, or -1.
pub open spec fn var_end(s: Seq<char>, i: int) -> int {
    let w = word_end(s, i + 2);
    if 0 <= i && i + 2 < s.len() && s[i] == '{' && s[i + 1] == '$' && w > i + 2 && w < s.len() && s[w] == '}' { w + 1 } else { -1 }
}
pub open spec fn var_name(s: Seq<char>, i: int) -> Seq<char> { s.subrange(i + 2, var_end(s, i) - 1) }
pub open spec fn no_var(s: Seq<char>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> #[trigger] var_end(s, k) < 0 }
// The variables with a value, each to be replaced by it.
pub open spec fn var_edits(s: Seq<char>, m: Map<Seq<char>, Seq<char>>, i: int) -> Seq<Edit>
    decreases s.len() - i,
{
    if i < 0 || i >= s.len() { Seq::empty() }
    else if var_end(s, i) >= 0 && m.contains_key(var_name(s, i)) { seq![Edit { a: i, e: var_end(s, i), t: m[var_name(s, i)] }] + var_edits(s, m, i + 1) }
    else { var_edits(s, m, i + 1) }
}
pub open spec fn substituted(s: Seq<char>, m: Map<Seq<char>, Seq<char>>) -> Seq<char> { splice(s, var_edits(s, m, 0), 0) }
pub proof fn no_var_edits(s: Seq<char>, m: Map<Seq<char>, Seq<char>>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), no_var(s, i, j),
    ensures var_edits(s, m, i) == var_edits(s, m, j),
    decreases j - i,
{ if i < j { assert(var_end(s, i) < 0); no_var_edits(s, m, i + 1, j); } }
pub proof fn word_facts(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= word_end(s, i) <= s.len(), forall|k: int| i <= k < word_end(s, i) ==> is_word(#[trigger] s[k]),
    decreases s.len() - i,
{ if i < s.len() && is_word(s[i]) { word_facts(s, i + 1); } }
pub proof fn var_apart(s: Seq<char>, m: Map<Seq<char>, Seq<char>>, i: int)
    requires 0 <= i <= s.len(),
    ensures apart(s, var_edits(s, m, i), i),
    decreases s.len() - i,
{
    if i < s.len() {
        let e = var_end(s, i);
        if e >= 0 && m.contains_key(var_name(s, i)) {
            word_facts(s, i + 2);
            assert forall|k: int| i + 1 <= k < e implies #[trigger] var_end(s, k) < 0 by { assert(s[k] != '{'); }
            no_var_edits(s, m, i + 1, e);
            var_apart(s, m, e);
            let ds = var_edits(s, m, i);
            assert(ds.skip(1) =~= var_edits(s, m, i + 1));
        } else {
            var_apart(s, m, i + 1);
            splice_from(s, var_edits(s, m, i + 1), i, i + 1);
        }
    }
}
pub struct VarHit { pub a: usize, pub e: usize, pub name: String }
pub open spec fn hit_at(s: Seq<char>, h: VarHit, i: int) -> bool { h.a == bi(s, i) && h.e == bi(s, var_end(s, i)) && h.name@ == var_name(s, i) && var_end(s, i) >= 0 }
// captures_iter(): all matches, from left to right. A match has no other inside, so it leaves none out.
pub open spec fn nth_var(s: Seq<char>, hs: Seq<VarHit>, at: Seq<int>, k: int) -> bool {
    past(at, k) <= at[k] && hit_at(s, hs[k], at[k]) && no_var(s, past(at, k), at[k])
}
pub open spec fn all_vars(s: Seq<char>, hs: Seq<VarHit>, at: Seq<int>) -> bool {
    hs.len() == at.len() && (forall|k: int| 0 <= k < at.len() ==> #[trigger] nth_var(s, hs, at, k)) && no_var(s, past(at, at.len() as int), s.len() as int)
}
pub open spec fn past(at: Seq<int>, i: int) -> int { if i == 0 { 0 } else { at[i - 1] + 1 } }
pub proof fn var_step(s: Seq<char>, m: Map<Seq<char>, Seq<char>>, hs: Seq<VarHit>, at: Seq<int>, i: int, ds: Seq<Edit>) -> (r: Seq<Edit>)
    requires all_vars(s, hs, at), 0 <= i < hs.len(), var_edits(s, m, 0) == ds + var_edits(s, m, past(at, i)), 0 <= past(at, i) <= s.len(),
    ensures
        var_edits(s, m, 0) == r + var_edits(s, m, past(at, i + 1)), 0 <= past(at, i + 1) <= s.len(),
        r == if m.contains_key(hs[i].name@) { ds.push(Edit { a: at[i], e: var_end(s, at[i]), t: m[hs[i].name@] }) } else { ds },
        hs[i].a == bi(s, at[i]), hs[i].e == bi(s, var_end(s, at[i])),
{
    let q = at[i];
    assert(nth_var(s, hs, at, i));
    no_var_edits(s, m, past(at, i), q);
    word_facts(s, q + 2);
    if m.contains_key(var_name(s, q)) {
        let d = Edit { a: q, e: var_end(s, q), t: m[var_name(s, q)] };
        assert(ds + (seq![d] + var_edits(s, m, q + 1)) =~= ds.push(d) + var_edits(s, m, q + 1));
        ds.push(d)
    } else { ds }
}
pub proof fn var_done(s: Seq<char>, m: Map<Seq<char>, Seq<char>>, hs: Seq<VarHit>, at: Seq<int>, ds: Seq<Edit>)
    requires all_vars(s, hs, at), var_edits(s, m, 0) == ds + var_edits(s, m, past(at, hs.len() as int)), 0 <= past(at, hs.len() as int) <= s.len(),
    ensures ds == var_edits(s, m, 0), apart(s, ds, 0), s == splice(s, ds.skip(ds.len() as int), 0),
{
    no_var_edits(s, m, past(at, hs.len() as int), s.len() as int);
    assert(ds =~= var_edits(s, m, 0));
    var_apart(s, m, 0);
    assert(ds.skip(ds.len() as int) =~= Seq::empty());
    assert(s.skip(0) =~= s);
}
// The k-th replacement, those behind it being made.
pub proof fn splice_step(s: Seq<char>, ds: Seq<Edit>, k: int, u: Seq<char>)
    requires apart(s, ds, 0), 0 <= k < ds.len(), u == splice(s, ds.skip(k + 1), 0),
    ensures
        is_b(u, bi(s, ds[k].a)), is_b(u, bi(s, ds[k].e)), ci(u, bi(s, ds[k].a)) == ds[k].a, ci(u, bi(s, ds[k].e)) == ds[k].e, bi(s, ds[k].a) <= bi(s, ds[k].e),
        u.take(ds[k].a) + ds[k].t + u.skip(ds[k].e) == splice(s, ds.skip(k), 0),
{
    apart_tail(s, ds, k);
    splice_front(s, ds[k], ds.skip(k + 1));
    ci_bi(u, ds[k].a); ci_bi(u, ds[k].e);
    assert(seq![ds[k]] + ds.skip(k + 1) =~= ds.skip(k));
}
#[verifier::external_body]
pub fn vf_vars(s: &String) -> (r: (Vec<VarHit>, Ghost<Seq<int>>))
    ensures all_vars(s@, r.0@, r.1@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
// The replacements to be made, with places in bytes.
pub open spec fn ready(s: Seq<char>, v: Seq<(&String, std::ops::Range<usize>)>, ds: Seq<Edit>) -> bool {
    v.len() == ds.len() && forall|k: int| 0 <= k < ds.len() ==> (#[trigger] v[k]).0@ == ds[k].t && v[k].1.start == bi(s, ds[k].a) && v[k].1.end == bi(s, ds[k].e)
}
//@pin src/includes/mod.rs `static VARIABLE_REGEX: Lazy<Regex> = Lazy::new(|| Regex::new(r"\{\$(?P<name>[a-zA-Z0-9_\-]+)\}").unwrap());`
//@fn src/includes/mod.rs replace_variables
//@sub `&VariableMap` => `&StrMap`
//@sub `for capture in VARIABLE_REGEX.captures_iter(content) { $BODY } matches.reverse` => `let (vf_hits, vf_at) = vf_vars(content); let mut vf_i: usize = 0; while vf_i < vf_hits.len() { let capture = &vf_hits[vf_i]; vf_i += 1; $BODY } matches.reverse`
//@sub `let mtch = capture.get(0).unwrap();` => ``
//@sub `&capture["name"]` => `capture.name.as_str()`
//@sub `mtch.range()` => `capture.a..capture.e`
//@sub `matches.reverse();` => `vf_reverse(&mut matches);`
//@sub `for (value, range) in matches { $BODY }` => `let mut vf_j: usize = 0; while vf_j < matches.len() { let value = matches[vf_j].0; let range = matches[vf_j].1.start..matches[vf_j].1.end; vf_j += 1; $BODY }`
//@sub `content.replace_range(range, value);` => `vf_replace_range(content, range.start, range.end, value.as_str());`
//@spec
    ensures final(content)@ == substituted(old(content)@, variables@),
//@pre
    hide(var_edits); hide(splice); hide(apart); hide(all_vars); hide(var_end);
    let ghost s = content@;
    let ghost m = variables@;
    let ghost mut ds: Seq<Edit> = Seq::empty();
//@loop 0
    invariant
        content@ == s, variables@ == m, 0 <= vf_i <= vf_hits.len(), all_vars(s, vf_hits@, vf_at@), ready(s, matches@, ds),
        var_edits(s, m, 0) == ds + var_edits(s, m, past(vf_at@, vf_i as int)), 0 <= past(vf_at@, vf_i as int) <= s.len(),
    decreases vf_hits.len() - vf_i,
//@at 0 `let capture`
    proof { ds = var_step(s, m, vf_hits@, vf_at@, vf_i as int, ds); }
//@after 0
    proof { var_done(s, m, vf_hits@, vf_at@, ds); }
    let ghost v = matches@;
//@loop 1
    invariant
        v.len() == ds.len(), matches@ == v.reverse(), ready(s, v, ds), 0 <= vf_j <= matches.len(), apart(s, ds, 0),
        content@ == splice(s, ds.skip(ds.len() - vf_j), 0),
    decreases matches.len() - vf_j,
//@at 0 `let value = matches`
    proof {
        assert(matches@[vf_j as int] == v[ds.len() - vf_j - 1]);
        splice_step(s, ds, ds.len() - vf_j - 1, content@);
    }
//@post
    proof { assert(ds.skip(0) =~= ds); }
//@end

// ---- one marker ----
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum Rule { include_normal, include_compatibility, argument, page_ref, identifier, value }
pub struct Tree { pub rule: Rule, pub text: Seq<char>, pub inner: Seq<Tree> }
#[verifier::external_body]
pub struct Pairs<'i> { x: &'i str }
#[verifier::external_body]
pub struct Pair<'i> { x: &'i str }
#[verifier::external_body]
pub struct Span<'i> { x: &'i str }
impl<'i> Pairs<'i> {
    pub uninterp spec fn view(&self) -> Seq<Tree>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Pair<'i>>)
        ensures match r { Some(p) => old(self)@.len() > 0 && p@ == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { unimplemented!() }
}
impl<'i> Pair<'i> {
    pub uninterp spec fn view(&self) -> Tree;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'i str) ensures r@ == self@.text { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Pairs<'i>) ensures r@ == self@.inner { unimplemented!() }
    // Only asked of what starts the text.
    #[verifier::external_body]
    pub fn as_span(&self) -> (r: Span<'i>) ensures r@ == self@.text { unimplemented!() }
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule { unimplemented!() }
}
impl<'i> Span<'i> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == len8(self@) { unimplemented!() }
}
pub open spec fn is_argument(t: Tree) -> bool { t.rule is argument && t.inner.len() >= 2 }
pub open spec fn fine(ts: Seq<Tree>) -> bool { forall|i: int| 0 < i < ts.len() ==> is_argument(#[trigger] ts[i]) }
pub uninterp spec fn tree_of(compat: bool, s: Seq<char>) -> Option<Tree>;
// A match is a prefix, and not empty.
#[verifier::external_body]
pub proof fn tree_facts(compat: bool, s: Seq<char>)
    ensures match tree_of(compat, s) { Some(t) => 0 < t.text.len() <= s.len() && t.text == s.take(t.text.len() as int) && fine(t.inner), None => true },
{ }
#[verifier::external_body]
pub fn vf_include_parse<'i>(rule: Rule, s: &'i str) -> (r: Result<Pairs<'i>, ()>)
    requires rule is include_normal || rule is include_compatibility,
    ensures match r {
        Ok(p) => p@.len() > 0 && tree_of(rule is include_compatibility, s@) == Some(p@[0]),
        Err(_) => tree_of(rule is include_compatibility, s@).is_none(),
    },
{ unimplemented!() }
// "{$name}"
pub open spec fn own_var(name: Seq<char>) -> Seq<char> { "{$"@ + name + "}"@ }
// The first argument of a name counts, but one which only passes the variable on does not.
pub open spec fn vars_of(ts: Seq<Tree>) -> Map<Seq<char>, Seq<char>>
    decreases ts.len(),
{
    if ts.len() == 0 { Map::empty() } else {
        let m = vars_of(ts.drop_last()); let k = ts.last().inner[0].text; let v = ts.last().inner[1].text;
        if !m.contains_key(k) && v != own_var(k) { m.insert(k, v) } else { m }
    }
}
pub struct Wanted { pub site: Option<Seq<char>>, pub page: Seq<char>, pub vars: Map<Seq<char>, Seq<char>> }
pub open spec fn wanted_of(ts: Seq<Tree>) -> Option<Wanted> {
    if ts.len() == 0 { None } else { match page_of(ts[0].text) { None => None, Some((site, page)) => Some(Wanted { site, page, vars: vars_of(ts.skip(1)) }) } }
}
//@type src/includes/include_ref.rs IncludeRef
//@sub `VariableMap<'t>` => `StrMap`
//@end
//@type src/includes/includer/mod.rs FetchedPage
//@end
//@type src/includes/parse.rs IncludeParseError
//@attr #[derive(Debug)]
//@end
impl<'t> IncludeRef<'t> {
    pub open spec fn view(&self) -> Wanted { Wanted { site: opt(self.page_ref.site), page: self.page_ref.page@, vars: self.variables@ } }
//@fn src/includes/include_ref.rs @ `impl<'t> IncludeRef<'t>` new r
//@sub `VariableMap<'t>` => `StrMap`
//@spec
    ensures r.page_ref == page_ref, r.variables == variables,
//@end
//@fn src/includes/include_ref.rs @ `impl<'t> From<IncludeRef<'t>> for (PageRef<'t>, VariableMap<'t>)` from r
//@sig
fn vf_into(include: IncludeRef<'t>) -> (r: (PageRef<'t>, StrMap))
//@spec
    ensures r.0 == include.page_ref, r.1 == include.variables,
//@end
}
impl StrMap {
    #[verifier::external_body]
    pub fn vf_has(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
}
//@fn src/includes/parse.rs process_pairs r
//@fmt
//@sub `Pairs<Rule>` => `Pairs`
//@sub `pairs.next().ok_or(IncludeParseError)?.as_str()` => `(match pairs.next() { Some(vf_p) => vf_p, None => return Err(IncludeParseError) }).as_str()`
//@sub `PageRef::parse(page_raw)?` => `match PageRef::parse(page_raw) { Ok(vf_p) => vf_p, Err(_) => return Err(IncludeParseError) }`
//@sub `HashMap::new()` => `StrMap::new()`
//@sub `arguments.contains_key(key)` => `arguments.vf_has(key)`
//@sub `value != var_reference` => `!vf_eq(value, var_reference.as_str())`
//@sub `for pair in pairs { $BODY } Ok` => `loop { match pairs.next() { Some(pair) => { $BODY } None => { break; } } } Ok`
//@spec
    requires fine(pairs@),
    ensures match r { Ok(x) => wanted_of(pairs@) == Some(x@), Err(_) => wanted_of(pairs@).is_none() },
//@pre
    let ghost all = pairs@;
//@loop 0
    invariant
        all.len() > 0, pairs@.len() < all.len(), pairs@ == all.skip(all.len() - pairs@.len()), fine(all), page_of(all[0].text) == Some((opt(page_ref.site), page_ref.page@)),
        arguments@ == vars_of(all.subrange(1, all.len() - pairs@.len())),
    ensures arguments@ == vars_of(all.skip(1)),
    decreases pairs@.len(),
//@in 0
    proof {
        if pairs@.len() == 0 { assert(all.subrange(1, all.len() as int) =~= all.skip(1)); }
        else {
            let n = all.len() - pairs@.len();
            assert(pairs@[0] == all[n]);
            assert(is_argument(all[n]));
            assert(all.subrange(1, n + 1).drop_last() =~= all.subrange(1, n));
            assert(all.subrange(1, n + 1).last() == all[n]);
            assert(pairs@.skip(1) =~= all.skip(n + 1));
        }
    }
//@end
//@type src/settings/mod.rs WikitextSettings
//@keep enable_page_syntax use_include_compatibility
//@end
// What a marker at i asks for, and where it ends.
pub open spec fn block_at(compat: bool, s: Seq<char>, i: int) -> Option<(Wanted, int)> {
    match tree_of(compat, s.skip(i)) { None => None, Some(t) => match wanted_of(t.inner) { None => None, Some(w) => Some((w, i + t.text.len())) } }
}
pub proof fn bi_plus(s: Seq<char>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= s.len(),
    ensures bi(s, i + n) == bi(s, i) + len8(s.skip(i).take(n)),
{
    assert(s.take(i + n) =~= s.take(i) + s.skip(i).take(n));
    len8_add(s.take(i), s.skip(i).take(n));
}
//@fn src/includes/parse.rs parse_include_block r
//@slices text
//@sub `IncludeParser::parse(` => `vf_include_parse(`
//@sub `process_pairs(first.into_inner())?` => `match process_pairs(first.into_inner()) { Ok(vf_x) => vf_x, Err(vf_e) => return Err(vf_e) }`
//@spec
    requires is_b(text@, start as nat),
    ensures match r {
        Ok(x) => ({ let b = block_at(settings.use_include_compatibility, text@, ci(text@, start as nat)); b.is_some() && x.0@ == b->Some_0.0 && x.1 == bi(text@, b->Some_0.1) && ci(text@, start as nat) < b->Some_0.1 <= text@.len() }),
        Err(_) => block_at(settings.use_include_compatibility, text@, ci(text@, start as nat)).is_none(),
    },
//@pre
    proof { tree_facts(settings.use_include_compatibility, text@.skip(ci(text@, start as nat))); }
//@at 0 `let include =`
    proof {
        let i = ci(text@, start as nat);
        str_fits(text);
        tree_facts(settings.use_include_compatibility, text@.skip(i));
        bi_plus(text@, i, span@.len() as int);
        bi_mono(text@, i + span@.len(), text@.len() as int);
        bi_ends(text@);
    }
//@end

// ---- all of them ----
pub open spec fn blanks_end(s: Seq<char>, i: int) -> int
    decreases s.len() - i,
{ if 0 <= i < s.len() && is_ws(s[i]) { blanks_end(s, i + 1) } else { i } }
// At the start of a line, "[[", blanks, "include" in any case, a blank.
pub open spec fn at_marker(s: Seq<char>, i: int) -> bool {
    let b = blanks_end(s, i + 2);
    &&& 0 <= i && i + 2 <= s.len() && s[i] == '[' && s[i + 1] == '[' && (i == 0 || s[i - 1] == '\n')
    &&& b + 7 < s.len() && eq_nocase(s.subrange(b, b + 7), "include"@) && is_ws(s[b + 7])
}
pub struct Found { pub a: int, pub e: int, pub w: Wanted }
// Those which are well-formed and not inside the one before.
pub open spec fn found(s: Seq<char>, compat: bool, i: int, last: int) -> Seq<Found>
    decreases s.len() - i,
{
    if i < 0 || i >= s.len() { Seq::empty() }
    else if at_marker(s, i) && i >= last {
        match block_at(compat, s, i) { Some((w, e)) => seq![Found { a: i, e, w }] + found(s, compat, i + 1, e), None => found(s, compat, i + 1, last) }
    } else { found(s, compat, i + 1, last) }
}
pub open spec fn no_marker(s: Seq<char>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> !#[trigger] at_marker(s, k) }
pub proof fn found_skip(s: Seq<char>, compat: bool, i: int, j: int, last: int)
    requires 0 <= i <= j <= s.len(), no_marker(s, i, j),
    ensures found(s, compat, i, last) == found(s, compat, j, last),
    decreases j - i,
{ if i < j { assert(!at_marker(s, i)); found_skip(s, compat, i + 1, j, last); } }
pub open spec fn nth_mark(s: Seq<char>, hs: Seq<usize>, at: Seq<int>, k: int) -> bool {
    past(at, k) <= at[k] < s.len() && hs[k] == bi(s, at[k]) && at_marker(s, at[k]) && no_marker(s, past(at, k), at[k])
}
pub open spec fn all_marks(s: Seq<char>, hs: Seq<usize>, at: Seq<int>) -> bool {
    hs.len() == at.len() && (forall|k: int| 0 <= k < at.len() ==> #[trigger] nth_mark(s, hs, at, k)) && no_marker(s, past(at, at.len() as int), s.len() as int)
}
#[verifier::external_body]
pub fn vf_marks(s: &str) -> (r: (Vec<usize>, Ghost<Seq<int>>)) ensures all_marks(s@, r.0@, r.1@) { unimplemented!() }

// ---- the includer's part ----
pub trait Includer<'t>: Sized {
    type Error;
    spec fn answers(a: Self, w: Seq<Wanted>, r: Result<Vec<FetchedPage<'t>>, Self::Error>, b: Self) -> bool;
    spec fn misses(a: Self, p: (Option<Seq<char>>, Seq<char>), r: Result<Cow<'t, str>, Self::Error>, b: Self) -> bool;
    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> (r: Result<Vec<FetchedPage<'t>>, Self::Error>)
        ensures Self::answers(*old(self), wanteds(includes@), r, *final(self));
    fn no_such_include(&mut self, page_ref: &PageRef<'t>) -> (r: Result<Cow<'t, str>, Self::Error>)
        ensures Self::misses(*old(self), ref_of(*page_ref), r, *final(self));
}
pub open spec fn ref_of(p: PageRef) -> (Option<Seq<char>>, Seq<char>) { (opt(p.site), p.page@) }
pub open spec fn wanteds(v: Seq<IncludeRef>) -> Seq<Wanted> { v.map_values(|x: IncludeRef| x@) }
pub open spec fn asked(f: Seq<Found>) -> Seq<Wanted> { f.map_values(|x: Found| x.w) }
pub open spec fn refs(f: Seq<Found>) -> Seq<(Option<Seq<char>>, Seq<char>)> { f.map_values(|x: Found| (x.w.site, x.w.page)) }
pub open spec fn page_refs(v: Seq<PageRef>) -> Seq<(Option<Seq<char>>, Seq<char>)> { v.map_values(|x: PageRef| ref_of(x)) }
// What goes in for one marker: the page with its variables put in, or what the includer says when there is none.
pub open spec fn put_in<'t, I: Includer<'t>>(w: Wanted, p: FetchedPage<'t>, t: Seq<char>) -> bool {
    ref_of(p.page_ref) == (w.site, w.page) && match p.content {
        Some(c) => t == substituted(c@, w.vars),
        None => exists|a: I, r: Cow<'t, str>, b: I| #[trigger] I::misses(a, (w.site, w.page), Ok(r), b) && r@ == t,
    }
}
pub open spec fn edits_of(f: Seq<Found>, ts: Seq<Seq<char>>) -> Seq<Edit> { Seq::new(f.len(), |i: int| Edit { a: f[i].a, e: f[i].e, t: ts[i] }) }
// The whole result, given what the includer answered.
pub open spec fn included<'t, I: Includer<'t>>(s: Seq<char>, f: Seq<Found>, ps: Seq<FetchedPage<'t>>, ts: Seq<Seq<char>>, out: Seq<char>) -> bool {
    &&& ps.len() == f.len() && ts.len() == f.len()
    &&& forall|i: int| 0 <= i < f.len() ==> put_in::<I>(#[trigger] f[i].w, ps[i], ts[i])
    &&& out == splice(s, edits_of(f, ts), 0)
}
pub open spec fn answered<'t, I: Includer<'t>>(a: I, s: Seq<char>, f: Seq<Found>, out: Seq<char>) -> bool {
    exists|ps: Vec<FetchedPage<'t>>, b: I, ts: Seq<Seq<char>>| #[trigger] I::answers(a, asked(f), Ok(ps), b) && #[trigger] included::<I>(s, f, ps@, ts, out)
}
// Why there is no result: the includer fails, or it answers for too many, too few or other pages.
pub open spec fn refused<'t, I: Includer<'t>>(f: Seq<Found>, a: I, e: I::Error, b: I) -> bool {
    ||| exists|r: Result<Vec<FetchedPage<'t>>, I::Error>| #[trigger] I::answers(a, asked(f), r, b) && r == Err::<Vec<FetchedPage<'t>>, I::Error>(e)
    ||| exists|x: I, p: (Option<Seq<char>>, Seq<char>), y: I| #[trigger] I::misses(x, p, Err(e), y)
}
pub open spec fn mismatch<'t>(f: Seq<Found>, ps: Seq<FetchedPage<'t>>) -> bool {
    ps.len() != f.len() || exists|i: int| 0 <= i < f.len() && ref_of((#[trigger] ps[i]).page_ref) != refs(f)[i]
}
#[verifier::external_body]
pub fn vf_ref_eq(a: &PageRef, b: &PageRef) -> (r: bool) ensures r == (ref_of(*a) == ref_of(*b)) { unimplemented!() }
#[verifier::external_body]
pub fn vf_owned(s: Cow<str>) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vf_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// zip() ends with the shortest; rev() goes from the last pair to the first.
pub open spec fn least(a: int, b: int, c: int) -> int { if a <= b && a <= c { a } else if b <= c { b } else { c } }
#[verifier::external_body]
pub fn vf_zip3_rev<A, B, C>(a: Vec<A>, b: Vec<B>, c: Vec<C>) -> (r: Vec<((A, B), C)>)
    ensures
        r.len() == least(a.len() as int, b.len() as int, c.len() as int),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) == ((a[r.len() - 1 - i], b[r.len() - 1 - i]), c[r.len() - 1 - i]),
{ unimplemented!() }
pub proof fn mark_step(s: Seq<char>, c: bool, hs: Seq<usize>, at: Seq<int>, i: int, last: int, fs: Seq<Found>) -> (r: (Seq<Found>, int))
    requires all_marks(s, hs, at), 0 <= i < hs.len(), found(s, c, 0, 0) == fs + found(s, c, past(at, i), last), 0 <= past(at, i), 0 <= last <= s.len(),
    ensures
        found(s, c, 0, 0) == r.0 + found(s, c, past(at, i + 1), r.1), 0 <= past(at, i + 1) <= s.len(), 0 <= r.1 <= s.len(),
        0 <= at[i] < s.len(), hs[i] == bi(s, at[i]), is_b(s, hs[i] as nat), ci(s, hs[i] as nat) == at[i], (hs[i] < bi(s, last)) == (at[i] < last),
        ({
            let b = block_at(c, s, at[i]);
            if at[i] >= last && b.is_some() { r == (fs.push(Found { a: at[i], e: b->Some_0.1, w: b->Some_0.0 }), b->Some_0.1) } else { r == (fs, last) }
        }),
{
    let q = at[i];
    assert(nth_mark(s, hs, at, i));
    found_skip(s, c, past(at, i), q, last);
    ci_bi(s, q);
    if q < last { bi_mono(s, q, last); } else { bi_mono(s, last, q); }
    tree_facts(c, s.skip(q));
    if q < last { (fs, last) } else {
        match block_at(c, s, q) {
            Some((w, e)) => {
                let f = Found { a: q, e, w };
                assert(fs + (seq![f] + found(s, c, q + 1, e)) =~= fs.push(f) + found(s, c, q + 1, e));
                (fs.push(f), e)
            }
            None => (fs, last),
        }
    }
}
pub proof fn mark_done(s: Seq<char>, c: bool, hs: Seq<usize>, at: Seq<int>, last: int, fs: Seq<Found>)
    requires all_marks(s, hs, at), found(s, c, 0, 0) == fs + found(s, c, past(at, hs.len() as int), last), 0 <= past(at, hs.len() as int) <= s.len(),
    ensures fs == found(s, c, 0, 0),
{
    found_skip(s, c, past(at, hs.len() as int), s.len() as int, last);
    assert(fs =~= found(s, c, 0, 0));
}
pub open spec fn blank_texts(n: nat) -> Seq<Seq<char>> { Seq::new(n, |i: int| Seq::<char>::empty()) }
pub open spec fn places(fs: Seq<Found>) -> Seq<Edit> { edits_of(fs, blank_texts(fs.len())) }
pub proof fn found_apart(s: Seq<char>, c: bool, i: int, last: int)
    requires 0 <= i <= s.len(), 0 <= last <= s.len(),
    ensures apart(s, places(found(s, c, i, last)), last),
    decreases s.len() - i,
{
    if i < s.len() {
        let fs = found(s, c, i, last);
        if at_marker(s, i) && i >= last {
            tree_facts(c, s.skip(i));
            match block_at(c, s, i) {
                Some((w, e)) => { found_apart(s, c, i + 1, e); assert(places(fs).skip(1) =~= places(found(s, c, i + 1, e))); }
                None => { found_apart(s, c, i + 1, last); }
            }
        } else { found_apart(s, c, i + 1, last); }
    }
}
pub proof fn same_places(s: Seq<char>, x: Seq<Edit>, y: Seq<Edit>, from: int)
    requires x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).a == y[i].a && x[i].e == y[i].e,
    ensures apart(s, x, from) == apart(s, y, from),
    decreases x.len(),
{
    if x.len() > 0 {
        assert(x[0].a == y[0].a);
        assert forall|i: int| 0 <= i < x.skip(1).len() implies (#[trigger] x.skip(1)[i]).a == y.skip(1)[i].a && x.skip(1)[i].e == y.skip(1)[i].e by { assert(x[i + 1].a == y[i + 1].a); }
        same_places(s, x.skip(1), y.skip(1), x[0].e);
    }
}
// The k-th page goes in, those behind it being in.
pub proof fn include_step(s: Seq<char>, fs: Seq<Found>, k: int, ts: Seq<Seq<char>>, u: Seq<char>, t: Seq<char>)
    requires apart(s, places(fs), 0), 0 <= k < fs.len(), ts.len() == fs.len() - k - 1, u == splice(s, edits_of(fs.skip(k + 1), ts), 0),
    ensures
        is_b(u, bi(s, fs[k].a)), is_b(u, bi(s, fs[k].e)), ci(u, bi(s, fs[k].a)) == fs[k].a, ci(u, bi(s, fs[k].e)) == fs[k].e, bi(s, fs[k].a) <= bi(s, fs[k].e),
        u.take(fs[k].a) + t + u.skip(fs[k].e) == splice(s, edits_of(fs.skip(k), seq![t] + ts), 0),
{
    let p = places(fs);
    apart_tail_at(s, p, 0, k);
    let ds = edits_of(fs.skip(k + 1), ts);
    same_places(s, p.skip(k + 1), ds, fs[k].e);
    let d = Edit { a: fs[k].a, e: fs[k].e, t };
    splice_front(s, d, ds);
    ci_bi(u, d.a); ci_bi(u, d.e);
    assert(seq![d] + ds =~= edits_of(fs.skip(k), seq![t] + ts));
}
pub open spec fn marked(s: Seq<char>, rs: Seq<std::ops::Range<usize>>, is: Seq<IncludeRef>, fs: Seq<Found>) -> bool {
    rs.len() == fs.len() && is.len() == fs.len() && forall|k: int| 0 <= k < fs.len() ==> (#[trigger] rs[k]).start == bi(s, fs[k].a) && rs[k].end == bi(s, fs[k].e) && is[k]@ == fs[k].w
}
//@pin src/includes/mod.rs `static INCLUDE_REGEX: Lazy<Regex> = Lazy::new(|| { RegexBuilder::new(r"^\[\[\s*include\s+") .case_insensitive(true) .multi_line(true) .dot_matches_new_line(true) .build() .unwrap() });`
//@fn src/includes/mod.rs include r
//@sub `str!(input)` => `vf_string(input)`
//@sub `String::from(input)` => `vf_string(input)`
//@sub `for mtch in INCLUDE_REGEX.find_iter(input) { $BODY } let fetched_pages` => `let (vf_hits, vf_at) = vf_marks(input); let mut vf_i: usize = 0; while vf_i < vf_hits.len() { let mtch = vf_hits[vf_i]; vf_i += 1; $BODY } let fetched_pages`
//@sub `mtch.start()` => `mtch`
//@sub `includer.include_pages(&includes)?` => `match includer.include_pages(includes.as_slice()) { Ok(vf_x) => vf_x, Err(vf_e) => { return Err(vf_e); } }`
//@sub `ranges_iter.zip(includes_iter).zip(fetched_iter).rev()` => `vf_zip3_rev(ranges_iter, includes_iter, fetched_iter)`
//@sub `ranges.into_iter()` => `ranges`
//@sub `includes.into_iter()` => `includes`
//@sub `fetched_pages.into_iter()` => `fetched_pages`
//@sub `for ((range, include), fetched) in joined_iter { $BODY } pages.reverse();` => `let mut joined_iter = joined_iter; while joined_iter.len() > 0 { let ((range, include), fetched) = joined_iter.remove(0); $BODY } vf_reverse(&mut pages);`
//@sub `Err(_) => ,` => `Err(_) => {}`
//@sub `include.into()` => `IncludeRef::vf_into(include)`
//@sub `page_ref != fetched.page_ref` => `!vf_ref_eq(&page_ref, &fetched.page_ref)`
//@sub `Some(mut content) => { replace_variables(content.to_mut(), &variables); content }` => `Some(content) => { let mut vf_c = vf_owned(content); replace_variables(&mut vf_c, &variables); Cow::Owned(vf_c) }`
//@sub `includer.no_such_include(&page_ref)?` => `match includer.no_such_include(&page_ref) { Ok(vf_x) => vf_x, Err(vf_e) => { return Err(vf_e); } }`
//@sub `output.replace_range(range, &replace_with);` => `vf_replace_range(&mut output, range.start, range.end, vf_str(&replace_with));`
//@sig
pub fn include<'t, I, E, F>(input: &'t str, settings: &WikitextSettings, vf_includer: I, invalid_return: F) -> (r: Result<(String, Vec<PageRef<'t>>), E>)
where
    I: Includer<'t, Error = E>,
    F: FnOnce() -> E,
//@spec
    requires invalid_return.requires(()),
    ensures
        !settings.enable_page_syntax ==> r.is_ok() && r->Ok_0.0@ == input@ && r->Ok_0.1@.len() == 0,
        settings.enable_page_syntax ==> ({
            let f = found(input@, settings.use_include_compatibility, 0, 0);
            match r {
                Ok(x) => page_refs(x.1@) == refs(f) && answered::<I>(vf_includer, input@, f, x.0@),
                Err(e) => (exists|b: I| #[trigger] refused(f, vf_includer, e, b))
                    || (invalid_return.ensures((), e) && exists|ps: Vec<FetchedPage<'t>>, b: I| #[trigger] I::answers(vf_includer, asked(f), Ok(ps), b) && mismatch(f, ps@)),
            }
        }),
//@pre
    hide(found); hide(splice); hide(apart); hide(all_marks); hide(block_at); hide(substituted);
    let ghost s = input@;
    let ghost c = settings.use_include_compatibility;
    let ghost first = vf_includer;
    let mut includer = vf_includer;
    let ghost mut fs: Seq<Found> = Seq::empty();
    let ghost mut last: int = 0;
//@loop 0
    invariant
        s == input@, c == settings.use_include_compatibility, 0 <= vf_i <= vf_hits.len(), all_marks(s, vf_hits@, vf_at@), marked(s, ranges@, includes@, fs),
        found(s, c, 0, 0) == fs + found(s, c, past(vf_at@, vf_i as int), last), 0 <= past(vf_at@, vf_i as int) <= s.len(), 0 <= last <= s.len(), last_end == bi(s, last),
    decreases vf_hits.len() - vf_i,
//@at 0 `let mtch`
    proof { let r = mark_step(s, c, vf_hits@, vf_at@, vf_i as int, last, fs); fs = r.0; last = r.1; }
//@after 0
    proof {
        mark_done(s, c, vf_hits@, vf_at@, last, fs);
        found_apart(s, c, 0, 0);
        assert forall|k: int| 0 <= k < fs.len() implies (#[trigger] wanteds(includes@)[k]) == asked(fs)[k] by { assert(ranges@[k].start == bi(s, fs[k].a)); }
        assert(wanteds(includes@) =~= asked(fs));
    }
//@at 0 `return Err(vf_e);`
    proof {
        let r: Result<Vec<FetchedPage<'t>>, I::Error> = Err(vf_e);
        assert(I::answers(first, asked(fs), r, includer));
        assert(refused(fs, first, vf_e, includer));
    }
//@at 0 `return Err(invalid_return())`
    proof { assert(mismatch(fs, fetched_pages@)); assert(I::answers(first, asked(fs), Ok(fetched_pages), includer)); }
//@at 1 `return Err(invalid_return())`
    proof {
        assert(rs[k].start == bi(s, fs[k].a));
        assert(fetched == ps@[k]);
        assert(is[k]@ == fs[k].w);
        assert(ref_of(ps@[k].page_ref) != refs(fs)[k]);
        assert(mismatch(fs, ps@));
    }
//@at 1 `return Err(vf_e);`
    proof { assert(refused(fs, first, vf_e, includer)); }
//@at 0 `let (vf_hits`
    proof { assert(fs + found(s, c, 0, 0) =~= found(s, c, 0, 0)); bi_ends(s); }
//@at 0 `let joined_iter`
    let ghost rs = ranges@;
    let ghost is = includes@;
    let ghost ps = fetched_pages;
//@at 0 `let mut joined_iter`
    let ghost n = fs.len();
    let ghost js = joined_iter@;
    let ghost then = includer;
    let ghost mut ts: Seq<Seq<char>> = Seq::empty();
    proof {
        assert(edits_of(fs.skip(n as int), ts) =~= Seq::empty());
        assert(splice(s, Seq::empty(), 0) == s) by { reveal(splice); assert(s.skip(0) =~= s); }
        assert(page_refs(pages@) =~= refs(fs.skip(n as int)).reverse());
    }
//@loop 1
    invariant
        invalid_return.requires(()), first == vf_includer,
        s == input@, c == settings.use_include_compatibility, fs == found(s, c, 0, 0), n == fs.len(), ps.len() == n, js.len() == n, settings.enable_page_syntax,
        marked(s, rs, is, fs), I::answers(first, asked(fs), Ok(ps), then), apart(s, places(fs), 0),
        forall|i: int| 0 <= i < n ==> (#[trigger] js[i]) == ((rs[n - 1 - i], is[n - 1 - i]), ps@[n - 1 - i]),
        joined_iter.len() <= n, joined_iter@ == js.skip(n - joined_iter.len()), ts.len() == n - joined_iter.len(),
        output@ == splice(s, edits_of(fs.skip(joined_iter.len() as int), ts), 0),
        page_refs(pages@) == refs(fs.skip(joined_iter.len() as int)).reverse(),
        forall|i: int| joined_iter.len() <= i < n ==> put_in::<I>(#[trigger] fs[i].w, ps@[i], ts[i - joined_iter.len()]),
    decreases joined_iter.len(),
//@at 0 `let ((range`
    let ghost k = joined_iter.len() - 1;
    proof { assert(joined_iter@[0] == js[n - 1 - k]); assert(joined_iter@.remove(0) =~= js.skip(n - k)); }
//@at 0 `vf_replace_range(&mut output`
    proof {
        include_step(s, fs, k, ts, output@, replace_with@);
        assert(rs[k].start == bi(s, fs[k].a));
        ts = seq![replace_with@] + ts;
        assert(refs(fs.skip(k)).reverse() =~= refs(fs.skip(k + 1)).reverse().push((fs[k].w.site, fs[k].w.page)));
        assert(page_refs(pages@) =~= refs(fs.skip(k)).reverse());
    }
//@at 0 `vf_reverse(&mut pages)`
    proof {
        assert(fs.skip(0) =~= fs);
        assert(page_refs(pages@.reverse()) =~= page_refs(pages@).reverse());
        assert(refs(fs).reverse().reverse() =~= refs(fs));
        assert(page_refs(pages@.reverse()) == refs(fs));
        assert(included::<I>(s, fs, ps@, ts, output@));
        assert(I::answers(vf_includer, asked(fs), Ok(ps), then));
    }
//@at 1 `Ok((output, pages))`
    proof {
        let f = found(input@, settings.use_include_compatibility, 0, 0);
        assert(page_refs(pages@) == refs(f));
        assert(I::answers(vf_includer, asked(f), Ok(ps), then) && included::<I>(input@, f, ps@, ts, output@));
        assert(answered::<I>(vf_includer, input@, f, output@));
    }
//@end
