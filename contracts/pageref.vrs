// C15: what a page reference means, and that parsing and printing agree.
use std::borrow::Cow;
//@use strx fmt

//@use linktypes
//@type src/data/page_ref.rs PageRefParseError
//@attr #[derive(Debug)]
//@end
pub open spec fn site_part(s: Seq<char>) -> Seq<char> { trim(s.subrange(1, 1 + find(s.skip(1), seq![':']))) }
pub open spec fn page_part(s: Seq<char>) -> Seq<char> { trim(s.skip(2 + find(s.skip(1), seq![':']))) }
#[verifier::external_body]
pub fn vf_borrowed<'t>(s: &'t str) -> (r: Cow<'t, str>) ensures r@ == s@ { unimplemented!() }

impl<'t> PageRef<'t> {
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` page_and_site r
//@sub `site.into()` => `vf_borrowed(site)`
//@sub `page.into()` => `vf_borrowed(page)`
//@sig
fn page_and_site(site: &'t str, page: &'t str) -> (r: Self)
//@spec
    ensures r.site.is_some(), r.site->Some_0@ == site@, r.page@ == page@,
//@end
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` page_only r
//@sub `page.into()` => `vf_borrowed(page)`
//@sig
fn page_only(page: &'t str) -> (r: Self)
//@spec
    ensures r.site.is_none(), r.page@ == page@,
//@end
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` parse r
//@methods trim find is_empty
//@slices s
//@spec
    ensures
        // ":site:page" is off-site when the site is there; ":page" and "::page" are nothing
        match page_of(s@) { None => r.is_err(), Some((site, page)) => r.is_ok() && opt(r->Ok_0.site) == site && r->Ok_0.page@ == page },
//@at 0 `let result`
    proof {
        let t = s@;
        find_char(t, ':');
        find_char(t.skip(1), ':');
        bi_ends(t);
        let k = find(t.skip(1), seq![':']);
        bi_ends(t.skip(1));
        str_fits(s);
        if find(t, seq![':']) > 0 { bi_mono(t, 0, find(t, seq![':'])); }
        if t[0] == ':' {
            bi_step(t, 0);
            ci_bi(t, 1);
            if k >= 0 {
                bi_mono(t.skip(1), 0, k);
                bi_skip(t, 1, k);
                assert(t[1 + k] == t.skip(1)[k]);
                bi_step(t, 1 + k);
                bi_mono(t, 1, 1 + k); bi_mono(t, 2 + k, t.len() as int);
                ci_bi(t, 1 + k); ci_bi(t, 2 + k);
            }
        }
    }
//@end
}

//@assume formatter: writing to it does not fail and appends
impl<'t> PageRef<'t> {
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` site r
//@sub `self.site.ref_map(|s| s.as_ref())` => `match &self.site { Some(s) => Some(vf_str(s)), None => None }`
//@spec
    ensures match r { Some(x) => self.site.is_some() && x@ == self.site->Some_0@, None => self.site.is_none() },
//@end
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` page r
//@sub `self.page.as_ref()` => `vf_str(&self.page)`
//@spec
    ensures r@ == self.page@,
//@end
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` fields r
//@spec
    ensures r.1@ == self.page@, match r.0 { Some(x) => self.site.is_some() && x@ == self.site->Some_0@, None => self.site.is_none() },
//@end
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` fields_or r
//@sub `self.site().unwrap_or(current_site)` => `match self.site() { Some(vf_s) => vf_s, None => current_site }`
//@spec
    ensures r.1@ == self.page@, r.0@ == (match self.site { Some(x) => x@, None => current_site@ }),
//@end
//@fn src/data/page_ref.rs @ `impl Display for PageRef<'_>` fmt r
//@fmt
//@sig
fn fmt(&self, f: &mut String) -> (r: Result<(), FmtError>)
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + printed(opt(self.site), self.page@),
//@pre
    proof { reveal_strlit(":"); assert(":"@ =~= seq![':']); }
//@end
}
#[verifier::external_body]
pub fn vf_str<'a, 'b>(s: &'a Cow<'b, str>) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
pub open spec fn opt(o: Option<Cow<str>>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn printed(site: Option<Seq<char>>, page: Seq<char>) -> Seq<char> {
    match site { Some(s) => seq![':'] + s + seq![':'] + page, None => page }
}
pub open spec fn page_of(t: Seq<char>) -> Option<(Option<Seq<char>>, Seq<char>)> {
    let s = trim(t);
    let k = find(s.skip(1), seq![':']);
    if s.len() == 0 || (s[0] == ':' && (k <= 0 || site_part(s).len() == 0)) { None }
    else if s[0] == ':' { Some((Some(site_part(s)), page_part(s))) }
    else { Some((None, s)) }
}

// A colon is no white space.
#[verifier::external_body]
pub proof fn colon_no_blank() ensures !is_ws(':') { }
pub proof fn trim_start_facts(s: Seq<char>)
    ensures
        ({ let t = trim_start(s); t.len() <= s.len() && t == s.skip(s.len() - t.len()) && (t.len() > 0 ==> !is_ws(t[0])) }),
        s.len() == 0 || !is_ws(s[0]) ==> trim_start(s) == s,
    decreases s.len(),
{
    if s.len() > 0 && is_ws(s[0]) { trim_start_facts(s.skip(1)); let t = trim_start(s); assert(s.skip(s.len() - t.len()) =~= s.skip(1).skip(s.len() - 1 - t.len())); }
    else { assert(s.skip(0) =~= s); }
}
pub proof fn trim_end_facts(s: Seq<char>)
    ensures
        ({ let t = trim_end(s); t.len() <= s.len() && t == s.take(t.len() as int) && (t.len() > 0 ==> !is_ws(t.last())) }),
        s.len() == 0 || !is_ws(s.last()) ==> trim_end(s) == s,
    decreases s.len(),
{
    if s.len() > 0 && is_ws(s.last()) { trim_end_facts(s.drop_last()); let t = trim_end(s); assert(s.take(t.len() as int) =~= s.drop_last().take(t.len() as int)); }
    else { assert(s.take(s.len() as int) =~= s); }
}
pub proof fn trim_facts(s: Seq<char>)
    ensures
        ({ let t = trim(s); (t.len() > 0 ==> !is_ws(t[0]) && !is_ws(t.last())) && (forall|c: char| t.contains(c) ==> s.contains(c)) && trim(t) == t }),
        s.len() > 0 && !is_ws(s[0]) && !is_ws(s.last()) ==> trim(s) == s,
{
    trim_start_facts(s);
    let u = trim_start(s);
    trim_end_facts(u);
    let t = trim(s);
    if t.len() > 0 { assert(t[0] == u[0]); }
    trim_start_facts(t); trim_end_facts(t);
    assert forall|c: char| t.contains(c) implies s.contains(c) by {
        let i = choose|i: int| 0 <= i < t.len() && t[i] == c;
        assert(u[i] == c); assert(s[s.len() - u.len() + i] == c);
    }
}
// C15: reading what was printed gives the same reference.
pub proof fn printed_reads_back(s: Seq<char>)
    requires page_of(s).is_some(),
    ensures ({ let (site, page) = page_of(s)->Some_0; page_of(printed(site, page)) == Some((site, page)) }),
{
    let (site, page) = page_of(s)->Some_0;
    let t = trim(s);
    trim_facts(s); colon_no_blank();
    let k = find(t.skip(1), seq![':']);
    find_char(t.skip(1), ':');
    if t[0] == ':' {
        let raw = t.subrange(1, 1 + k);
        let si = trim(raw);
        trim_facts(raw); trim_facts(t.skip(2 + k));
        assert(!raw.contains(':')) by { if raw.contains(':') { let j = choose|j: int| 0 <= j < raw.len() && raw[j] == ':'; assert(t.skip(1)[j] == ':'); } }
        let p = printed(site, page);
        assert(p == seq![':'] + si + seq![':'] + page);
        assert(p[0] == ':');
        if page.len() > 0 { assert(p.last() == page.last()); } else { assert(p.last() == ':'); }
        trim_facts(p);
        assert(p.skip(1) =~= si + seq![':'] + page);
        find_char(p.skip(1), ':');
        let q = find(p.skip(1), seq![':']);
        assert(p.skip(1)[si.len() as int] == ':');
        if q < si.len() { assert(si[q] == ':'); }
        assert(q == si.len());
        assert(p.subrange(1, 1 + q) =~= si);
        assert(p.skip(2 + q) =~= page);
    } else { assert(printed(site, page) == t); }
}
