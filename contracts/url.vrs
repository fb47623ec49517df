// C03: what a link target becomes, and that it never opens a script.
use std::borrow::Cow;
//@use strx
//@assume regular expression ^[\w\-]+$ accepts the texts of one or more word characters and hyphens
//@assume wikidot_normalize::normalize() is a function of its argument
// The browser's view of a scheme (URL standard): leading control characters and
// blanks are dropped, tabs and line ends anywhere, letter case does not count.
pub open spec fn ignored(c: char) -> bool { c == '\t' || c == '\n' || c == '\r' }
pub open spec fn scheme_is(s: Seq<char>, name: Seq<char>) -> bool
    decreases s.len(),
{
    if s.len() == 0 { false } else if ignored(s[0]) { scheme_is(s.skip(1), name) }
    else if name.len() == 0 { s[0] == ':' }
    else { low(s[0]) == name[0] && scheme_is(s.skip(1), name.skip(1)) }
}
pub open spec fn skip_controls(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && s[0] <= ' ' { skip_controls(s.skip(1)) } else { s } }
pub open spec fn script(s: Seq<char>) -> bool {
    scheme_is(skip_controls(s), "javascript"@) || scheme_is(skip_controls(s), "data"@)
}
pub open spec fn known_schemes() -> Seq<Seq<char>> {
    seq!["blob:"@, "chrome-extension://"@, "chrome://"@, "content://"@, "dns:"@, "feed:"@, "file://"@, "ftp://"@, "git://"@, "gopher://"@,
        "http://"@, "https://"@, "irc6://"@, "irc://"@, "ircs://"@, "mailto:"@, "resource://"@, "rtmp://"@, "sftp://"@]
}
pub open spec fn has_known_scheme(s: Seq<char>) -> bool { exists|i: int| 0 <= i < known_schemes().len() && starts(s, #[trigger] known_schemes()[i]) }
pub proof fn scheme_texts()
    ensures
        known_schemes()[0][0] == 'b', known_schemes()[1][0] == 'c', known_schemes()[2][0] == 'c', known_schemes()[3][0] == 'c',
        known_schemes()[4][0] == 'd', known_schemes()[4][1] == 'n', known_schemes()[4].len() == 4,
        known_schemes()[5][0] == 'f', known_schemes()[6][0] == 'f', known_schemes()[7][0] == 'f', known_schemes()[8][0] == 'g', known_schemes()[9][0] == 'g',
        known_schemes()[10][0] == 'h', known_schemes()[11][0] == 'h', known_schemes()[12][0] == 'i', known_schemes()[13][0] == 'i', known_schemes()[14][0] == 'i',
        known_schemes()[15][0] == 'm', known_schemes()[16][0] == 'r', known_schemes()[17][0] == 'r', known_schemes()[18][0] == 's',
        forall|i: int| 0 <= i < 19 ==> (#[trigger] known_schemes()[i]).len() >= 1,
        "javascript"@[0] == 'j', "data"@[0] == 'd', "data"@[1] == 'a', "data"@.len() == 4, "javascript"@.len() == 10,
{
    reveal_strlit("blob:"); reveal_strlit("chrome-extension://"); reveal_strlit("chrome://"); reveal_strlit("content://"); reveal_strlit("dns:");
    reveal_strlit("feed:"); reveal_strlit("file://"); reveal_strlit("ftp://"); reveal_strlit("git://"); reveal_strlit("gopher://");
    reveal_strlit("http://"); reveal_strlit("https://"); reveal_strlit("irc6://"); reveal_strlit("irc://"); reveal_strlit("ircs://");
    reveal_strlit("mailto:"); reveal_strlit("resource://"); reveal_strlit("rtmp://"); reveal_strlit("sftp://"); reveal_strlit("javascript"); reveal_strlit("data");
}
pub proof fn no_script_first(s: Seq<char>)
    requires s.len() > 0, s[0] > ' ', low(s[0]) != 'j', low(s[0]) != 'd',
    ensures !script(s),
{ scheme_texts(); assert(skip_controls(s) == s); }
pub proof fn known_is_safe(s: Seq<char>)
    requires has_known_scheme(s),
    ensures !script(s),
{
    scheme_texts();
    let i = choose|i: int| 0 <= i < known_schemes().len() && starts(s, #[trigger] known_schemes()[i]);
    let p = known_schemes()[i];
    assert(s[0] == s.take(p.len() as int)[0]);
    if i == 4 {
        assert(s[1] == s.take(p.len() as int)[1]);
        assert(skip_controls(s) == s);
        assert(s.skip(1)[0] == 'n');
        assert("data"@.skip(1)[0] == 'a');
        assert(!scheme_is(s.skip(1), "data"@.skip(1)));
    } else { no_script_first(s); }
}
//@type src/url.rs URL_SCHEMES
//@sub `[&str; 19]` => `[&'static str; 19]`
//@end
//@fn src/url.rs is_url r
//@methods starts_with
//@spec
    ensures r == has_known_scheme(url@),
//@loop 0 it
    invariant
        it.seq().len() == 19,
        forall|i: int| 0 <= i < 19 ==> *(#[trigger] it.seq()[i]) == URL_SCHEMES[i],
        forall|i: int| 0 <= i < it.index() ==> !starts(url@, #[trigger] known_schemes()[i]),
//@in 0
    proof { assert(known_schemes()[it.index()] == scheme@); }
//@end

// Word characters as the regex crate has them; nothing about them is assumed.
pub uninterp spec fn word(c: char) -> bool;
#[verifier::external_body]
pub fn vf_scheme_regex(s: &str) -> (r: bool)
    ensures r == (s@.len() > 0 && forall|i: int| 0 <= i < s@.len() ==> word(#[trigger] s@[i]) || s@[i] == '-'),
{ unimplemented!() }
pub open spec fn refused(s: Seq<char>) -> bool {
    let k = find(s, seq![':']);
    let scheme = s.take(k);
    k >= 0 && (k == 0 || (exists|i: int| 0 <= i < k && !word(#[trigger] scheme[i]) && scheme[i] != '-')
        || eq_nocase(scheme, "javascript"@) || eq_nocase(scheme, "data"@))
}
//@fn src/url.rs dangerous_scheme r
//@sub `static SCHEME_REGEX: Lazy<Regex> = Lazy::new(|| Regex::new(r"^[\w\-]+$").unwrap());` => ``
//@sub `SCHEME_REGEX.is_match(scheme)` => `vf_scheme_regex(scheme)`
//@sub `url.split_once(':').map(|(scheme, _)| { $BODY }).unwrap_or(false)` => `match url.x_split_once(':') { Some((scheme, _)) => { $BODY } None => false }`
//@methods eq_ignore_ascii_case
//@spec
    ensures r == refused(url@),
//@at 0 `if`
    proof {
        let k = find(url@, seq![':']);
        assert(scheme@ == url@.take(k));
        if scheme@.len() > 0 && !(forall|i: int| 0 <= i < scheme@.len() ==> word(#[trigger] scheme@[i]) || scheme@[i] == '-') {
            let i = choose|i: int| 0 <= i < scheme@.len() && !word(#[trigger] scheme@[i]) && scheme@[i] != '-';
            assert(!word(url@.take(k)[i]));
        }
        find_char(url@, ':');
    }
//@end

pub uninterp spec fn norm(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn normalize(s: &mut String)
    ensures final(s)@ == norm(old(s)@),
{ unimplemented!() }
// The path on the site: the first segment of the path is normalised.
pub open spec fn site_path(s: Seq<char>) -> Seq<char> {
    let h = find(s, seq!['#']);
    let segs = split(if h >= 0 { s.take(h) } else { s }, seq!['/']);
    let segs = if segs[0].len() > 0 || segs.len() == 1 { segs.insert(0, Seq::empty()) } else { segs };
    let path = join(segs.update(1, norm(segs[1])), seq!['/']);
    if h >= 0 { path + seq!['#'] + s.skip(h + 1) } else { path }
}
pub open spec fn href(s: Seq<char>) -> Seq<char> {
    if has_known_scheme(s) || starts(s, seq!['#']) || s == "javascript:;"@ { s }
    else if refused(s) { "#invalid-url"@ }
    else { site_path(s) }
}
pub proof fn split_len(s: Seq<char>, p: Seq<char>)
    ensures split(s, p).len() >= 1,
    decreases s.len(),
{ find_facts(s, p, 0); let k = find(s, p); if p.len() > 0 && k >= 0 && k + p.len() <= s.len() { split_len(s.skip(k + p.len()), p); } }
// A site path starts with a slash.
pub proof fn site_path_slash(s: Seq<char>)
    ensures site_path(s).len() > 0, site_path(s)[0] == '/',
{
    let h = find(s, seq!['#']);
    let t = if h >= 0 { s.take(h) } else { s };
    split_len(t, seq!['/']);
    let segs = split(t, seq!['/']);
    let segs = if segs[0].len() > 0 || segs.len() == 1 { segs.insert(0, Seq::empty()) } else { segs };
    let v = segs.update(1, norm(segs[1]));
    assert(segs.len() >= 2 && v[0].len() == 0);
    assert(join(v, seq!['/'])[0] == '/');
}
// C03: nothing that becomes a link target opens a script.
pub proof fn href_is_safe(s: Seq<char>)
    ensures href(s) == "javascript:;"@ || !script(href(s)),
{
    if has_known_scheme(s) { known_is_safe(s); }
    else if starts(s, seq!['#']) { assert(s[0] == s.take(1)[0]); no_script_first(s); }
    else if s == "javascript:;"@ {}
    else if refused(s) { reveal_strlit("#invalid-url"); no_script_first("#invalid-url"@); }
    else { site_path_slash(s); no_script_first(site_path(s)); }
}
#[verifier::external_body]
pub fn vf_hash_join(a: &str, b: &str) -> (r: String)
    ensures r@ == a@ + seq!['#'] + b@,
{ unimplemented!() }
//@fn src/url.rs normalize_href r
//@methods starts_with is_empty
//@sub `fn normalize_href(url: &str) -> Cow<str>` => `fn normalize_href<'a>(url: &'a str) -> Cow<'a, str>`
//@sub `url.splitn(2, "#").collect()` => `url.x_splitn2("#")`
//@sub `.split("/").collect()` => `.x_split("/")`
//@sub `str!($x)` => `$x.x_to_owned()`
//@sub `split_url.join("/")` => `vf_join(&split_url, "/")`
//@sub `format!("{}#{}", $a, $b)` => `vf_hash_join(&$a, $b)`
//@spec
    ensures
        r@ == href(url@),
        r@ == "javascript:;"@ || !script(r@),
//@pre
    proof { href_is_safe(url@); reveal_strlit("#"); reveal_strlit("/"); assert("#"@ =~= seq!['#']); assert("/"@ =~= seq!['/']); find_char(url@, '#'); }
    let ghost s0 = url@;
//@at 0 `if !split_url[0]`
    let ghost cut = if find(s0, seq!['#']) >= 0 { s0.take(find(s0, seq!['#'])) } else { s0 };
    let ghost segs = split(cut, seq!['/']);
    proof { split_len(cut, seq!['/']); assert(texts(split_url@) =~= segs); assert(split_url[0]@ == texts(split_url@)[0]); }
//@at 0 `let mut url`
    let ghost segs = if segs[0].len() > 0 || segs.len() == 1 { segs.insert(0, Seq::empty()) } else { segs };
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(texts(split_url@) =~= segs); assert(split_url[1]@ == texts(split_url@)[1]); }
//@at 0 `url = vf_join`
    proof { assert(texts(split_url@) =~= segs.update(1, norm(segs[1]))); }
//@end
