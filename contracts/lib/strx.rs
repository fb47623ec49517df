//@use utf
// Strings as sequences of characters; byte offsets are sums of UTF-8 widths.
pub open spec fn bi(s: Seq<char>, i: int) -> nat { len8(s.take(i)) }
pub open spec fn is_b(s: Seq<char>, k: nat) -> bool { exists|i: int| 0 <= i <= s.len() && k == #[trigger] bi(s, i) }
pub open spec fn ci(s: Seq<char>, k: nat) -> int { choose|i: int| 0 <= i <= s.len() && k == #[trigger] bi(s, i) }
pub proof fn ci_bi(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures ci(s, bi(s, i)) == i, is_b(s, bi(s, i)),
{
    let j = ci(s, bi(s, i));
    assert(0 <= j <= s.len() && bi(s, j) == bi(s, i));
    if i < j { len8_mono(s, i, j); } else if j < i { len8_mono(s, j, i); }
}
pub proof fn bi_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures bi(s, i) <= bi(s, j), i < j ==> bi(s, i) < bi(s, j),
{ len8_mono(s, i, j); }
pub proof fn bi_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures bi(s, i + 1) == bi(s, i) + w8(s[i]),
{ len_step(s, i); }
pub proof fn bi_ends(s: Seq<char>)
    ensures bi(s, 0) == 0, bi(s, s.len() as int) == len8(s), is_b(s, 0), is_b(s, len8(s)), ci(s, 0) == 0, ci(s, len8(s)) == s.len(),
{
    assert(s.take(0) =~= Seq::<char>::empty()); assert(s.take(s.len() as int) =~= s);
    ci_bi(s, 0); ci_bi(s, s.len() as int);
}
pub proof fn len8_add(a: Seq<char>, b: Seq<char>)
    ensures len8(a + b) == len8(a) + len8(b), len16(a + b) == len16(a) + len16(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { len8_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn bi_skip(s: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= s.len(),
    ensures bi(s, i + j) == bi(s, i) + bi(s.skip(i), j),
{
    assert(s.take(i + j) =~= s.take(i) + s.skip(i).take(j));
    len8_add(s.take(i), s.skip(i).take(j));
}
// First occurrence at or after i, or -1.
pub open spec fn find_at(s: Seq<char>, p: Seq<char>, i: int) -> int
    decreases s.len() + 1 - i,
{
    if i < 0 || i + p.len() > s.len() { -1 } else if s.subrange(i, i + p.len()) == p { i } else { find_at(s, p, i + 1) }
}
pub open spec fn find(s: Seq<char>, p: Seq<char>) -> int { find_at(s, p, 0) }
pub proof fn find_facts(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i,
    ensures ({
        let k = find_at(s, p, i);
        &&& k >= 0 ==> i <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) == p
        &&& k < 0 ==> k == -1
        &&& forall|j: int| i <= j && (j < k || k < 0) && j + p.len() <= s.len() ==> #[trigger] s.subrange(j, j + p.len()) != p
    }),
    decreases s.len() + 1 - i,
{ if i + p.len() <= s.len() && s.subrange(i, i + p.len()) != p { find_facts(s, p, i + 1); } }
pub proof fn find_char(s: Seq<char>, c: char)
    ensures ({
        let k = find(s, seq![c]);
        &&& k >= 0 ==> k < s.len() && s[k] == c
        &&& k < 0 ==> k == -1 && !s.contains(c)
        &&& forall|j: int| 0 <= j < s.len() && (j < k || k < 0) ==> #[trigger] s[j] != c
    }),
{
    find_facts(s, seq![c], 0);
    let k = find(s, seq![c]);
    if k >= 0 { assert(s.subrange(k, k + 1)[0] == s[k]); }
    assert forall|j: int| 0 <= j < s.len() && (j < k || k < 0) implies #[trigger] s[j] != c by {
        assert(s.subrange(j, j + 1) != seq![c]);
        if s[j] == c { assert(s.subrange(j, j + 1) =~= seq![c]); }
    }
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn split(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    let k = find(s, p);
    if p.len() == 0 || k < 0 || k + p.len() > s.len() { seq![s] } else { seq![s.take(k)] + split(s.skip(k + p.len()), p) }
}
pub open spec fn replace_all(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    let k = find(s, p);
    if p.len() == 0 || k < 0 || k + p.len() > s.len() { s } else { s.take(k) + r + replace_all(s.skip(k + p.len()), p, r) }
}
// White space as char::is_whitespace() has it; nothing about it is assumed.
pub uninterp spec fn is_ws(c: char) -> bool;
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && is_ws(s[0]) { trim_start(s.skip(1)) } else { s } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && is_ws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
pub open spec fn run(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() > 0 && !is_ws(s[0]) { 1 + run(s.skip(1)) } else { 0 } }
pub proof fn run_le(s: Seq<char>)
    ensures run(s) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 && !is_ws(s[0]) { run_le(s.skip(1)); } }
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if is_ws(s[0]) { words(s.skip(1)) }
    else if 0 < run(s) <= s.len() { seq![s.take(run(s) as int)] + words(s.skip(run(s) as int)) } else { Seq::empty() }
}
pub open spec fn low(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| low(c)) }
pub open spec fn eq_nocase(a: Seq<char>, b: Seq<char>) -> bool { lower(a) == lower(b) }
// Unicode lower case: uninterpreted.
pub uninterp spec fn ulower(s: Seq<char>) -> Seq<char>;

pub trait StrPat {
    spec fn pv(&self) -> Seq<char>;
}
impl StrPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } }
impl StrPat for &str { open spec fn pv(&self) -> Seq<char> { self@ } }
impl StrPat for &&str { open spec fn pv(&self) -> Seq<char> { self@ } }
impl StrPat for &String { open spec fn pv(&self) -> Seq<char> { self@ } }
pub trait StrX {
    spec fn sv(&self) -> Seq<char>;
    fn x_find<P: StrPat>(&self, p: P) -> (r: Option<usize>)
        ensures len8(self.sv()) <= isize::MAX, match r { Some(k) => find(self.sv(), p.pv()) >= 0 && k == bi(self.sv(), find(self.sv(), p.pv())) && k <= len8(self.sv()), None => find(self.sv(), p.pv()) == -1 };
    fn x_contains<P: StrPat>(&self, p: P) -> (r: bool)
        ensures r == (find(self.sv(), p.pv()) >= 0);
    fn x_starts_with<P: StrPat>(&self, p: P) -> (r: bool)
        ensures r == starts(self.sv(), p.pv());
    fn x_ends_with<P: StrPat>(&self, p: P) -> (r: bool)
        ensures r == ends(self.sv(), p.pv());
    fn x_strip_prefix<P: StrPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => starts(self.sv(), p.pv()) && t@ == self.sv().skip(p.pv().len() as int), None => !starts(self.sv(), p.pv()) };
    fn x_strip_suffix<P: StrPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => ends(self.sv(), p.pv()) && t@ == self.sv().take(self.sv().len() - p.pv().len()), None => !ends(self.sv(), p.pv()) };
    fn x_split_once<P: StrPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match r {
            Some(t) => find(self.sv(), p.pv()) >= 0 && t.0@ == self.sv().take(find(self.sv(), p.pv())) && t.1@ == self.sv().skip(find(self.sv(), p.pv()) + p.pv().len()),
            None => find(self.sv(), p.pv()) == -1,
        };
    fn x_split<P: StrPat>(&self, p: P) -> (r: Vec<&str>)
        requires p.pv().len() > 0,
        ensures r.len() == split(self.sv(), p.pv()).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == split(self.sv(), p.pv())[i];
    fn x_splitn2<P: StrPat>(&self, p: P) -> (r: Vec<&str>)
        requires p.pv().len() > 0,
        ensures
            find(self.sv(), p.pv()) == -1 ==> r.len() == 1 && r[0]@ == self.sv(),
            find(self.sv(), p.pv()) >= 0 ==> r.len() == 2 && r[0]@ == self.sv().take(find(self.sv(), p.pv())) && r[1]@ == self.sv().skip(find(self.sv(), p.pv()) + p.pv().len());
    fn x_split_whitespace(&self) -> (r: Vec<&str>)
        ensures r.len() == words(self.sv()).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == words(self.sv())[i];
    fn x_replace<P: StrPat, Q: StrPat>(&self, p: P, q: Q) -> (r: String)
        requires p.pv().len() > 0,
        ensures r@ == replace_all(self.sv(), p.pv(), q.pv());
    fn x_trim(&self) -> (r: &str) ensures r@ == trim(self.sv());
    fn x_trim_start(&self) -> (r: &str) ensures r@ == trim_start(self.sv());
    fn x_trim_end(&self) -> (r: &str) ensures r@ == trim_end(self.sv());
    fn x_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn x_chars(&self) -> (r: Vec<char>) ensures r@ == self.sv();
    fn x_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == eq_nocase(self.sv(), o@);
    fn x_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower(self.sv());
    fn x_to_lowercase(&self) -> (r: String) ensures r@ == ulower(self.sv());
    fn x_to_owned(&self) -> (r: String) ensures r@ == self.sv();
    fn x_to_string(&self) -> (r: String) ensures r@ == self.sv();
    fn x_is_char_boundary(&self, k: usize) -> (r: bool) ensures r == is_b(self.sv(), k as nat);
}
impl StrX for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_find<P: StrPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn x_contains<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_starts_with<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_ends_with<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_strip_prefix<P: StrPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_strip_suffix<P: StrPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_split_once<P: StrPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn x_split<P: StrPat>(&self, p: P) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_splitn2<P: StrPat>(&self, p: P) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_split_whitespace(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_replace<P: StrPat, Q: StrPat>(&self, p: P, q: Q) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn x_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_is_char_boundary(&self, k: usize) -> (r: bool) { unimplemented!() }
}
impl StrX for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_find<P: StrPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn x_contains<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_starts_with<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_ends_with<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_strip_prefix<P: StrPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_strip_suffix<P: StrPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_split_once<P: StrPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn x_split<P: StrPat>(&self, p: P) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_splitn2<P: StrPat>(&self, p: P) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_split_whitespace(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_replace<P: StrPat, Q: StrPat>(&self, p: P, q: Q) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn x_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_is_char_boundary(&self, k: usize) -> (r: bool) { unimplemented!() }
}
impl<'c> StrX for std::borrow::Cow<'c, str> {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_find<P: StrPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn x_contains<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_starts_with<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_ends_with<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_strip_prefix<P: StrPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_strip_suffix<P: StrPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_split_once<P: StrPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn x_split<P: StrPat>(&self, p: P) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_splitn2<P: StrPat>(&self, p: P) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_split_whitespace(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_replace<P: StrPat, Q: StrPat>(&self, p: P, q: Q) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn x_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn x_is_char_boundary(&self, k: usize) -> (r: bool) { unimplemented!() }
}
// `&s[a..b]`: both ends have to be character boundaries.
#[verifier::external_body]
pub fn vf_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, is_b(s@, a as nat), is_b(s@, b as nat),
    ensures r@ == s@.subrange(ci(s@, a as nat), ci(s@, b as nat)), ci(s@, a as nat) <= ci(s@, b as nat),
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires is_b(s@, a as nat),
    ensures r@ == s@.skip(ci(s@, a as nat)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_slice_to<'a>(s: &'a str, b: usize) -> (r: &'a str)
    requires is_b(s@, b as nat),
    ensures r@ == s@.take(ci(s@, b as nat)),
{ unimplemented!() }
// `a == b` on strings, and join().
#[verifier::external_body]
pub fn vf_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub open spec fn join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + sep + join(v.skip(1), sep) } }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
#[verifier::external_body]
pub fn vf_join(v: &Vec<&str>, sep: &str) -> (r: String) ensures r@ == join(texts(v@), sep@) { unimplemented!() }
// No string is larger than the address space allows.
#[verifier::external_body]
pub proof fn str_fits(s: &str)
    ensures len8(s@) <= isize::MAX,
{ }
// String::replace_range(), push() and push_str().
#[verifier::external_body]
pub fn vf_replace_range(s: &mut String, a: usize, b: usize, t: &str)
    requires a <= b, is_b(old(s)@, a as nat), is_b(old(s)@, b as nat),
    ensures final(s)@ == old(s)@.take(ci(old(s)@, a as nat)) + t@ + old(s)@.skip(ci(old(s)@, b as nat)),
{ unimplemented!() }
pub trait StringX {
    spec fn gv(&self) -> Seq<char>;
    fn x_push(&mut self, c: char) ensures final(self).gv() == old(self).gv().push(c);
    fn x_push_str(&mut self, t: &str) ensures final(self).gv() == old(self).gv() + t@;
    fn x_clear(&mut self) ensures final(self).gv() == Seq::<char>::empty();
}
impl StringX for String {
    open spec fn gv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_push(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] fn x_push_str(&mut self, t: &str) { unimplemented!() }
    #[verifier::external_body] fn x_clear(&mut self) { unimplemented!() }
}
// Equal text, equal string.
#[verifier::external_body]
pub broadcast proof fn str_ext(a: &str, b: &str)
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b,
{ }
