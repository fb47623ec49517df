// C02, C03, C04: the builder writes whole tags, closes what it opens, and writes the attributes it is given and no others.
use std::borrow::Cow;
//@use markup
//@use nonzero
//@use tree
//@import variables pageref url
// C21: the links which lead away from the page.
#[verifier::external_body]
pub struct VariableMap<'t> { x: std::marker::PhantomData<&'t str> }
impl<'t> VariableMap<'t> { pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
#[verifier::external_body]
pub struct Module<'t> { x: std::marker::PhantomData<&'t str> }
//@type src/tree/image.rs ImageSource
//@end
//@type src/tree/embed.rs Embed
//@end
#[verifier::external_body]
pub struct BibliographyList<'t> { x: std::marker::PhantomData<&'t str> }
#[verifier::external_body]
pub struct Bibliography<'t> { x: std::marker::PhantomData<&'t str> }
#[verifier::external_body]
pub struct HtmlMeta { x: u8 }
#[verifier::external_body]
pub struct Random { x: u8 }
#[verifier::external_body]
pub struct PageCache { x: u8 }
pub struct Handle;
//@type src/settings/mod.rs WikitextSettings
//@keep minify_css use_true_ids allow_local_paths
//@end
//@type src/data/page_info.rs PageInfo
//@end
#[verifier::external_body]
pub struct ScoreValue { x: u8 }
//@type src/data/backlinks.rs Backlinks
//@end
//@type src/render/html/context.rs HtmlContext
//@sub `HashMap<PageRef<'static>, bool>` => `PageCache`
//@end
//@type src/render/html/attributes.rs AddedAttributes
//@sub `AttributeEntry<'a>` => `(&'a str, &'a [&'a str])`
//@end
//@pin src/render/html/attributes.rs `type AttributeValue<'a> = &'a [&'a str]; type AttributeEntry<'a> = (&'a str, AttributeValue<'a>);`
impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
    pub open spec fn doc(&self) -> Doc { doc_read(self.body@) }
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` buffer r
//@spec
    ensures *r == old(self).body, *final(self) == (HtmlContext { body: *final(r), ..*old(self) }),
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` push_raw
//@methods push
//@spec
    ensures final(self).body@ == old(self).body@.push(ch), final(self).doc() == step(old(self).doc(), ch),
        *final(self) == (HtmlContext { body: final(self).body, ..*old(self) }),
//@post
    proof { doc_push(old(self).body@, ch); }
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` push_raw_str
//@methods push_str
//@spec
    ensures final(self).body@ == old(self).body@ + s@, final(self).doc() == doc_run(old(self).doc(), s@),
        *final(self) == (HtmlContext { body: final(self).body, ..*old(self) }),
//@post
    proof { doc_more(old(self).body@, s@); }
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` push_escaped
//@spec
    ensures final(self).body@ == old(self).body@ + esc(s@), final(self).doc() == doc_run(old(self).doc(), esc(s@)),
        held(old(self).doc()) ==> final(self).doc() == old(self).doc(),
        *final(self) == (HtmlContext { body: final(self).body, ..*old(self) }),
//@post
    proof { doc_more(old(self).body@, esc(s@)); if held(old(self).doc()) { doc_esc(old(self).doc(), s@); } }
//@end
}
// Links are added, never taken away.
pub use growing::{grown, more, page_name, pages, urls};
pub mod growing {
use super::*;
pub open spec fn page_name(p: PageRef) -> (Option<Seq<char>>, Seq<char>) { (match p.site { Some(s) => Some(s@), None => None }, p.page@) }
pub open spec fn pages(v: Seq<PageRef<'static>>) -> Seq<(Option<Seq<char>>, Seq<char>)> { v.map_values(|p: PageRef<'static>| page_name(p)) }
pub open spec fn urls(v: Seq<Cow<'static, str>>) -> Seq<Seq<char>> { v.map_values(|c: Cow<'static, str>| c@) }
pub open spec fn grown<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
#[verifier::opaque]
pub open spec fn more(a: Backlinks<'static>, b: Backlinks<'static>) -> bool {
    grown(pages(a.included_pages@), pages(b.included_pages@)) && grown(pages(a.internal_links@), pages(b.internal_links@)) && grown(urls(a.external_links@), urls(b.external_links@))
}
pub broadcast proof fn more_refl(a: Backlinks<'static>)
    ensures #[trigger] more(a, a),
{
    reveal(more);
    let (p, q, r) = (pages(a.included_pages@), pages(a.internal_links@), urls(a.external_links@));
    assert(p.take(p.len() as int) =~= p); assert(q.take(q.len() as int) =~= q); assert(r.take(r.len() as int) =~= r);
}
pub broadcast proof fn more_trans(a: Backlinks<'static>, b: Backlinks<'static>, c: Backlinks<'static>)
    requires #[trigger] more(a, b), #[trigger] more(b, c),
    ensures more(a, c),
{
    reveal(more);
    let (p, q, r) = (pages(a.included_pages@), pages(a.internal_links@), urls(a.external_links@));
    let (x, y, z) = (pages(b.included_pages@), pages(b.internal_links@), urls(b.external_links@));
    let (u, v, w) = (pages(c.included_pages@), pages(c.internal_links@), urls(c.external_links@));
    assert(u.take(p.len() as int) =~= u.take(x.len() as int).take(p.len() as int));
    assert(v.take(q.len() as int) =~= v.take(y.len() as int).take(q.len() as int));
    assert(w.take(r.len() as int) =~= w.take(z.len() as int).take(r.len() as int));
}
}
broadcast use {ends::push_drop, growing::more_refl, growing::more_trans};
// Elements which may contain others.
pub open spec fn plain_tag(n: Seq<char>) -> bool { name_ok(n) && !raw(n) && !void(n) }
pub proof fn is_wj(s: Seq<char>)
    requires s.len() >= 3, s[0] == 'w', s[1] == 'j', s[2] == '-',
    ensures starts(s, "wj-"@),
{ reveal_strlit("wj-"); assert(s.take(3) =~= "wj-"@); }
//@type src/render/html/builder.rs HtmlBuilderTag
//@sub `struct HtmlBuilderTag<'c, 'i, 'h, 'e, 't> where 'e: 't, { ctx: &'c mut HtmlContext<'i, 'h, 'e, 't>,` => `struct HtmlBuilderTag<'t> {`
//@end
//@pin src/render/html/builder.rs `macro_rules! tag_method { ($tag:tt) => { pub fn $tag(self) -> HtmlBuilderTag<'c, 'i, 'h, 'e, 't> { self.tag(stringify!($tag)) } }; }`
//@pin src/render/html/builder.rs `pub fn new(ctx: &'c mut HtmlContext<'i, 'h, 'e, 't>) -> Self { HtmlBuilder { ctx } }`
//@pin src/render/html/builder.rs `{ self.content_start(); f(self.ctx); self }`
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z'));
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
//@fn src/render/html/builder.rs is_alphanumeric r
//@sub `value.chars().all(|c| $COND)` => `{ let vf_cs = value.x_chars(); let mut vf_i: usize = 0; while vf_i < vf_cs.len() { let c = vf_cs[vf_i]; if !($COND) { return false; } vf_i += 1; } true }`
//@spec
    ensures r == key_ok(value@),
//@loop 0
    invariant vf_cs@ == value@, vf_i <= vf_cs.len(), forall|i: int| 0 <= i < vf_i ==> alnum(#[trigger] value@[i]),
    decreases vf_cs.len() - vf_i,
//@in 0
    proof { assert(alnum(value@[vf_i as int]) == alnum(vf_cs@[vf_i as int])); }
//@end
pub open spec fn solo_list() -> Seq<&'static str> {
    seq!["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"]
}
//@type src/render/html/builder.rs SOLO_HTML_TAGS
//@sub `const SOLO_HTML_TAGS: [&str; 14] = [ $x ];` => `fn SOLO_HTML_TAGS() -> (r: Vec<&'static str>) ensures r@ == solo_list() { vec![ $x ] }`
//@end
pub fn vf_has(l: &Vec<&'static str>, t: &str) -> (r: bool) ensures r == (exists|i: int| 0 <= i < l@.len() && #[trigger] l@[i]@ == t@) {
    let mut i: usize = 0;
    while i < l.len()
        invariant i <= l@.len(), forall|j: int| 0 <= j < i ==> #[trigger] l@[j]@ != t@,
        decreases l.len() - i,
    {
        if vf_same(l[i], t) { return true; }
        i += 1;
    }
    false
}
#[verifier::external_body]
pub fn vf_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
// The listed elements are the ones HTML has no end tags for.
pub proof fn solo(n: Seq<char>)
    ensures (exists|i: int| 0 <= i < solo_list().len() && #[trigger] solo_list()[i]@ == n) == void(n),
{
    reveal_strlit("area"); reveal_strlit("base"); reveal_strlit("br"); reveal_strlit("col"); reveal_strlit("embed"); reveal_strlit("hr"); reveal_strlit("img");
    reveal_strlit("input"); reveal_strlit("link"); reveal_strlit("meta"); reveal_strlit("param"); reveal_strlit("source"); reveal_strlit("track"); reveal_strlit("wbr");
    let l = solo_list();
    assert(l.len() == 14);
    if void(n) {
        if n.len() == 2 { if n[0] == 'b' { assert(n =~= l[2]@); } else { assert(n =~= l[5]@); } }
        else if n.len() == 3 { if n[0] == 'c' { assert(n =~= l[3]@); } else if n[0] == 'i' { assert(n =~= l[6]@); } else { assert(n =~= l[13]@); } }
        else if n.len() == 4 { if n[0] == 'a' { assert(n =~= l[0]@); } else if n[0] == 'b' { assert(n =~= l[1]@); } else if n[0] == 'l' { assert(n =~= l[8]@); } else { assert(n =~= l[9]@); } }
        else if n.len() == 5 { if n[0] == 'e' { assert(n =~= l[4]@); } else if n[0] == 'i' { assert(n =~= l[7]@); } else if n[0] == 'p' { assert(n =~= l[10]@); } else { assert(n =~= l[12]@); } }
        else { assert(n =~= l[11]@); }
    }
    assert forall|i: int| 0 <= i < 14 && #[trigger] l[i]@ == n implies void(n) by { }
}
//@fn src/render/html/builder.rs should_close_tag r
//@sub `SOLO_HTML_TAGS.contains(&tag)` => `vf_has(&SOLO_HTML_TAGS(), tag)`
//@spec
    ensures r == !void(tag@),
//@pre
    proof { solo(tag@); }
//@end
// The map of a tag's attributes, as its entries.
pub uninterp spec fn entries(m: AttributeMap) -> Seq<(Seq<char>, Seq<char>)>;
pub open spec fn lists(e: Seq<(Seq<char>, Seq<char>)>, m: Map<Seq<char>, Seq<char>>) -> bool {
    &&& e.no_duplicates()
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> e.contains((k, m[k]))
}
// C03: what an attribute that is an address may be.
pub open spec fn url_key(k: Seq<char>) -> bool { k =~= seq!['h', 'r', 'e', 'f'] || k =~= seq!['s', 'r', 'c'] }
pub open spec fn sound(v: Seq<char>) -> bool { has_known_scheme(v) || v.len() > 0 && (v[0] == '/' || v[0] == '#') }
pub open spec fn placeholder(v: Seq<char>) -> bool { starts(v, "data:image/png;base64,"@) }
pub open spec fn may_be(v: Seq<char>) -> bool { !script(v) || v == "javascript:;"@ || placeholder(v) }
pub proof fn sound_more(v: Seq<char>, t: Seq<char>)
    requires sound(v),
    ensures sound(v + t), may_be(v + t), may_be(v), !script(v),
{
    let w = v + t;
    if has_known_scheme(v) {
        let i = choose|i: int| 0 <= i < known_schemes().len() && starts(v, #[trigger] known_schemes()[i]);
        assert(w.take(known_schemes()[i].len() as int) =~= v.take(known_schemes()[i].len() as int));
        assert(starts(w, known_schemes()[i]));
        known_is_safe(v); known_is_safe(w);
    } else { assert(w[0] == v[0]); no_script_first(v); no_script_first(w); }
}
pub proof fn web(v: Seq<char>, p: Seq<char>)
    requires starts(v, p), p == "https://"@ || starts(p, "https://"@),
    ensures sound(v), !script(v),
{
    reveal_strlit("https://");
    if p == "https://"@ { assert(v.take(8) =~= p); }
    assert(v.take(8) =~= p.take(8)); assert(starts(v, "https://"@)); assert(starts(v, known_schemes()[11]));
    known_is_safe(v);
}
// The texts of the parts of a value, one after the other.
pub open spec fn cat(s: Seq<&str>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { cat(s.drop_last()) + s.last()@ } }
pub open spec fn escs(s: Seq<&str>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { escs(s.drop_last()) + esc(s.last()@) } }
pub open spec fn empties(s: Seq<&str>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == 0 }
pub proof fn cat_one(a: &str)
    ensures cat(seq![a]) == a@, escs(seq![a]) == esc(a@), empties(seq![a]) == (a@.len() == 0),
{
    reveal_with_fuel(cat, 2); reveal_with_fuel(escs, 2);
    assert(seq![a].drop_last() =~= Seq::<&str>::empty()); assert(cat(seq![a]) =~= a@); assert(escs(seq![a]) =~= esc(a@)); assert(seq![a][0] == a);
}
pub proof fn cat_two(a: &str, b: &str)
    ensures cat(seq![a, b]) == a@ + b@, escs(seq![a, b]) == esc(a@) + esc(b@),
{ cat_one(a); cat_one(b); cat_add(seq![a], seq![b]); assert(seq![a] + seq![b] =~= seq![a, b]); }
pub proof fn none_twice(a: AddedAttributes, n: int)
    requires a.map.is_none(),
    ensures both(a, n) == Seq::<char>::empty(), forall|m: int, k: Seq<char>| !#[trigger] twice_to(a, m, k),
    decreases n,
{ if n > 0 { none_twice(a, n - 1); } }
pub broadcast proof fn cat_first(s: Seq<&str>)
    ensures s.len() == 1 ==> #[trigger] cat(s) == s[0]@, s.len() == 2 ==> cat(s) == s[0]@ + s[1]@, s.len() >= 1 && sound(s[0]@) ==> sound(cat(s)),
{
    if s.len() >= 1 {
        let r = s.skip(1);
        assert(s =~= seq![s[0]] + r);
        cat_one(s[0]); cat_add(seq![s[0]], r);
        if s.len() == 2 { assert(r =~= seq![s[1]]); cat_one(s[1]); }
        if s.len() == 1 { assert(r =~= Seq::<&str>::empty()); assert(cat(s) =~= s[0]@); }
        if sound(s[0]@) { sound_more(s[0]@, cat(r)); }
    }
}
pub proof fn blank_esc()
    ensures esc(seq![' ']) =~= seq![' '],
{ reveal_with_fuel(esc, 2); assert(seq![' '].drop_last() =~= Seq::<char>::empty()); }
pub proof fn cat_add(a: Seq<&str>, b: Seq<&str>)
    ensures cat(a + b) == cat(a) + cat(b), escs(a + b) == escs(a) + escs(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(cat(a) + cat(b) =~= cat(a)); assert(escs(a) + escs(b) =~= escs(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); cat_add(a, b.drop_last()); assert(cat(a + b) =~= cat(a) + cat(b)); assert(escs(a + b) =~= escs(a) + escs(b)); }
}
pub open spec fn fit(k: Seq<char>, v: Seq<char>) -> bool { url_key(k) ==> may_be(v) }
// An attribute as it is written: its name, and its value if that has any text.
pub open spec fn written(k: Seq<char>, v: Seq<&str>) -> Seq<char> { seq![' '] + esc(k) + (if empties(v) { seq![] } else { seq!['=', '"'] + escs(v) + seq!['"'] }) }
pub open spec fn mapped(a: AddedAttributes) -> Map<Seq<char>, Seq<char>> { match a.map { Some(m) => m@, None => Map::empty() } }
pub open spec fn on(a: AddedAttributes, i: int) -> bool { a.entries@[i].1 }
pub open spec fn key_of(a: AddedAttributes, i: int) -> Seq<char> { a.entries@[i].0.0@ }
pub open spec fn twice(a: AddedAttributes, i: int) -> bool { on(a, i) && mapped(a).contains_key(key_of(a, i)) }
pub open spec fn twice_to(a: AddedAttributes, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && #[trigger] twice(a, i) && key_of(a, i) == k }
// What is both given by the renderer and in the map: the renderer's value, a blank, and the map's.
pub open spec fn both(a: AddedAttributes, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { seq![] } else {
        both(a, n - 1) + (if twice(a, n - 1) { seq![' '] + esc(key_of(a, n - 1)) + seq!['=', '"'] + escs(a.entries@[n - 1].0.1@) + seq![' '] + esc(mapped(a)[key_of(a, n - 1)]) + seq!['"'] } else { seq![] })
    }
}
pub open spec fn own(a: AddedAttributes, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { seq![] } else { own(a, n - 1) + (if on(a, n - 1) && !twice_to(a, a.entries@.len() as int, key_of(a, n - 1)) { written(key_of(a, n - 1), a.entries@[n - 1].0.1@) } else { seq![] }) } }
pub open spec fn simple(k: Seq<char>, v: Seq<char>) -> Seq<char> { seq![' '] + esc(k) + (if v.len() == 0 { seq![] } else { seq!['=', '"'] + esc(v) + seq!['"'] }) }
pub open spec fn theirs(a: AddedAttributes, e: Seq<(Seq<char>, Seq<char>)>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { seq![] } else { theirs(a, e, n - 1) + (if !twice_to(a, a.entries@.len() as int, e[n - 1].0) { simple(e[n - 1].0, e[n - 1].1) } else { seq![] }) } }
// Everything that is written for the attributes of a tag.
pub open spec fn all_written(a: AddedAttributes) -> Seq<char> {
    both(a, a.entries@.len() as int) + own(a, a.entries@.len() as int) + (match a.map { Some(m) => theirs(a, entries(*m), entries(*m).len() as int), None => seq![] })
}
pub open spec fn urls_ok(a: AddedAttributes) -> bool {
    forall|i: int| 0 <= i < a.entries@.len() && #[trigger] on(a, i) && url_key(key_of(a, i)) ==> sound(cat(a.entries@[i].0.1@)) || a.map.is_none() && may_be(cat(a.entries@[i].0.1@))
}
//@assume names in attribute maps consist of ASCII letters, digits and hyphens, addresses in them are no scripts (unit attributes: they are on the allow-list, and went through normalize_href())
#[verifier::external_body]
pub fn vf_entries<'a>(m: &'a AttributeMap) -> (r: Vec<(&'a str, &'a str)>)
    ensures r@.len() == entries(*m).len(), lists(entries(*m), m@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == entries(*m)[i].0 && r@[i].1@ == entries(*m)[i].1 && name_ok(r@[i].0@) && fit(r@[i].0@, r@[i].1@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_value<'a>(m: &'a AttributeMap, key: &str) -> (r: Option<&'a str>) ensures match r { Some(v) => m@.contains_key(key@) && m@[key@] == v@, None => !m@.contains_key(key@) } { unimplemented!() }
// HashSet<&str>
#[verifier::external_body]
pub struct Names { x: u8 }
impl Names {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &str) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
// value_parts.iter().all(|s| s.is_empty())
#[verifier::external_body]
pub fn vf_all_empty(v: &[&str]) -> (r: bool) ensures r == empties(v@) { unimplemented!() }
pub open spec fn keys_ok(a: AddedAttributes) -> bool { forall|i: int| 0 <= i < a.entries@.len() && (#[trigger] a.entries@[i]).1 ==> name_ok(a.entries@[i].0.0@) }
pub trait ItemRender {
    // Texts only add to what is written.
    spec fn is_text(&self) -> bool;
    fn render(&self, ctx: &mut HtmlContext)
        requires text_at(old(ctx).doc()),
        ensures final(ctx).doc() == old(ctx).doc(), final(ctx).kept(*old(ctx)), self.is_text() ==> final(ctx).wrote(*old(ctx));
}
impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
    pub open spec fn wrote(&self, o: HtmlContext) -> bool { *self == (HtmlContext { body: self.body, ..o }) }
    // What rendering an element leaves as it was.
    pub open spec fn kept(&self, o: HtmlContext) -> bool {
        self.settings == o.settings && self.table_of_contents == o.table_of_contents && self.footnotes == o.footnotes && self.bibliographies == o.bibliographies
        && self.info == o.info && self.variables@ == o.variables@ && self.in_bibliography_tooltip == o.in_bibliography_tooltip && self.meta == o.meta
        && more(o.backlinks, self.backlinks) && self.footnote_index@ >= o.footnote_index@ && self.equation_index@ >= o.equation_index@ && self.code_snippet_index@ >= o.code_snippet_index@ && self.table_of_contents_index >= o.table_of_contents_index
    }
}
impl<'t> HtmlBuilderTag<'t> {
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't>` new r
//@sub `HtmlBuilderTag { ctx,` => `HtmlBuilderTag {`
//@sig
fn new(ctx: &mut HtmlContext, tag: &'t str) -> (r: Self)
//@spec
    requires text_at(old(ctx).doc()), name_ok(tag@),
    ensures r == (HtmlBuilderTag { tag, in_tag: true, in_contents: false }), final(ctx).doc() == at(old(ctx).doc(), Mode::Open(tag@)),
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }),
//@at 0 `HtmlBuilderTag {`
    proof { doc_open(at(old(ctx).doc(), Mode::Open(seq![])), tag@); }
//@end
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't>` attr_key r
//@sub `self.ctx` => `ctx`
//@sig
fn attr_key(&mut self, ctx: &mut HtmlContext, key: &str, has_value: bool)
//@spec
    requires tagging(old(ctx).doc(), old(self).tag@), old(self).in_tag, name_ok(key@), name_ok(old(self).tag@),
    ensures *final(self) == *old(self), final(ctx).doc() == at(old(ctx).doc(), if has_value { Mode::Eq(old(self).tag@) } else { Mode::Key(old(self).tag@) }),
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }), final(ctx).body@ =~= old(ctx).body@ + seq![' '] + esc(key@) + (if has_value { seq!['='] } else { seq![] }),
//@pre
    proof { doc_key(at(ctx.doc(), Mode::Space(self.tag@)), self.tag@, key@); esc_key(key@); }
//@end
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't>` attr_value r
//@sub `self.ctx` => `ctx`
//@sub `for part in value_parts` => `for part in value_parts.iter()`
//@sig
fn attr_value(&mut self, ctx: &mut HtmlContext, value_parts: &[&str])
//@spec
    requires old(ctx).doc().mode == Mode::Eq(old(self).tag@), !old(ctx).doc().ent,
    ensures *final(self) == *old(self), final(ctx).doc() == at(old(ctx).doc(), Mode::After(old(self).tag@)),
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }), final(ctx).body@ =~= old(ctx).body@ + seq!['"'] + escs(value_parts@) + seq!['"'],
//@loop 0 it
    invariant it.seq().len() == value_parts@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == value_parts@[i], ctx.body@ =~= old(ctx).body@ + seq!['"'] + escs(value_parts@.take(it.index())), ctx.doc() == at(old(ctx).doc(), Mode::Value(old(self).tag@)), *self == *old(self), *ctx == (HtmlContext { body: ctx.body, ..*old(ctx) }),
//@in 0
    proof { assert(value_parts@.take(it.index() + 1).drop_last() =~= value_parts@.take(it.index())); }
//@post
    proof { assert(value_parts@.take(value_parts@.len() as int) =~= value_parts@); }
//@end
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't>` attr_single r
//@sub `value_parts.iter().all(|s| s.is_empty())` => `vf_all_empty(value_parts)`
//@sub `self.attr_key(key, has_value); if has_value { self.attr_value(value_parts); } self` => `self.attr_key(ctx, key, has_value); if has_value { self.attr_value(ctx, value_parts); }`
//@sig
fn attr_single(&mut self, ctx: &mut HtmlContext, key: &str, value_parts: &[&str])
//@spec
    requires tagging(old(ctx).doc(), old(self).tag@), old(self).in_tag, name_ok(key@), name_ok(old(self).tag@), fit(key@, cat(value_parts@)),
    ensures *final(self) == *old(self), tagging(final(ctx).doc(), old(self).tag@), final(ctx).doc().stack == old(ctx).doc().stack,
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }), final(ctx).body@ =~= old(ctx).body@ + written(key@, value_parts@),
//@end
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't>` attr r
//@sub `fn filter_entries<'a>($A) -> impl Iterator<Item = (&'a str, &'a [&'a str])> { attributes.entries.iter().filter_map(|(item, accept)| { if *accept { Some(*item) } else { None } }, ) }` => ``
//@sub `HashSet::new()` => `Names::new()`
//@sub `let attribute_map = attribute_map.get();` => ``
//@sub `for (key, value_parts) in filter_entries(&attributes) { $BODY }` => `for vf_e in attributes.entries.iter() { let ((key, value_parts), vf_on) = *vf_e; if vf_on { $BODY } }`
//@sub `attribute_map.get(&cow!(key))` => `vf_value(attribute_map, key)`
//@sub `merged_value.extend(value_parts);` => `for vf_v in value_parts.iter() { merged_value.push(*vf_v); }`
//@sub `for (key, value) in attribute_map.get() { $BODY }` => `let vf_all = vf_entries(attribute_map); for vf_kv in vf_all.iter() { let (key, value) = *vf_kv; $BODY }`
//@sub `key.as_ref()` => `key`
//@sub `self.attr_single(key, &merged_value)` => `self.attr_single(ctx, key, merged_value.as_slice())`
//@sub `self.attr_single(key, &[value]);` => `let vf_one = [value]; self.attr_single(ctx, key, &vf_one);`
//@sub `self.attr_single(key, $x)` => `self.attr_single(ctx, key, $x)`
//@sub `} self }` => `} }`
//@sig
fn attr(&mut self, ctx: &mut HtmlContext, attributes: AddedAttributes)
//@spec
    requires tagging(old(ctx).doc(), old(self).tag@), old(self).in_tag, keys_ok(attributes), urls_ok(attributes), name_ok(old(self).tag@),
    ensures *final(self) == *old(self), tagging(final(ctx).doc(), old(self).tag@), final(ctx).doc().stack == old(ctx).doc().stack,
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }), final(ctx).body@ =~= old(ctx).body@ + all_written(attributes),
//@loop 0 it
    invariant tagging(ctx.doc(), old(self).tag@), ctx.doc().stack == old(ctx).doc().stack, *self == *old(self), self.in_tag, name_ok(self.tag@), keys_ok(attributes), urls_ok(attributes), *ctx == (HtmlContext { body: ctx.body, ..*old(ctx) }),
        it.seq().len() == attributes.entries@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == attributes.entries@[i], attributes.map == Some(attribute_map), ctx.body@ =~= old(ctx).body@ + both(attributes, it.index()),
        forall|k: Seq<char>| #[trigger] merged@.contains(k) <==> twice_to(attributes, it.index(), k),
//@in 0
    proof { assert(*vf_e == attributes.entries@[it.index() as int]); assert(on(attributes, it.index()) == vf_e.1); assert(key_of(attributes, it.index()) == vf_e.0.0@); }
    let ghost m0 = merged@; let ghost n0 = it.index();
//@tail 0
    proof {
        assert forall|k: Seq<char>| #[trigger] merged@.contains(k) <==> twice_to(attributes, n0 + 1, k) by {
            if twice_to(attributes, n0 + 1, k) {
                let i = choose|i: int| 0 <= i < n0 + 1 && #[trigger] twice(attributes, i) && key_of(attributes, i) == k;
                if i < n0 { assert(twice_to(attributes, n0, k)); }
            }
            if m0.contains(k) { let i = choose|i: int| 0 <= i < n0 && #[trigger] twice(attributes, i) && key_of(attributes, i) == k; assert(twice(attributes, i)); }
            if merged@.contains(k) && !m0.contains(k) { assert(twice(attributes, n0)); }
        }
    }
//@loop 1 it1
    invariant it1.seq().len() == value_parts@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == value_parts@[i], merged_value@ =~= value_parts@.take(it1.index()),
//@past 0 `merged_value.push(map_value);`
    proof {
        let tail = seq![" ", map_value];
        assert(value_parts@.take(value_parts@.len() as int) =~= value_parts@);
        assert(merged_value@ =~= value_parts@ + tail);
        cat_add(value_parts@, tail);
        reveal_strlit(" "); assert(" "@ =~= seq![' ']);
        blank_esc(); cat_two(" ", map_value);
        assert(escs(tail) =~= seq![' '] + esc(map_value@));
        assert(merged_value@[value_parts@.len() as int]@ == " "@);
        assert(!empties(merged_value@));
        if url_key(key@) { sound_more(cat(value_parts@), cat(tail)); }
    }
//@at 1 `for vf_e in`
    proof { if attributes.map.is_none() { none_twice(attributes, attributes.entries@.len() as int); } }
//@loop 2 it
    invariant tagging(ctx.doc(), old(self).tag@), ctx.doc().stack == old(ctx).doc().stack, *self == *old(self), self.in_tag, name_ok(self.tag@), keys_ok(attributes), urls_ok(attributes), *ctx == (HtmlContext { body: ctx.body, ..*old(ctx) }),
        it.seq().len() == attributes.entries@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == attributes.entries@[i], ctx.body@ =~= old(ctx).body@ + both(attributes, attributes.entries@.len() as int) + own(attributes, it.index()),
        forall|k: Seq<char>| #[trigger] merged@.contains(k) <==> twice_to(attributes, attributes.entries@.len() as int, k),
//@in 2
    proof { assert(*vf_e == attributes.entries@[it.index() as int]); assert(on(attributes, it.index()) == vf_e.1); assert(key_of(attributes, it.index()) == vf_e.0.0@); if on(attributes, it.index()) && url_key(key_of(attributes, it.index())) { if sound(cat(vf_e.0.1@)) { sound_more(cat(vf_e.0.1@), seq![]); } } }
//@loop 3 it
    invariant tagging(ctx.doc(), old(self).tag@), ctx.doc().stack == old(ctx).doc().stack, *self == *old(self), self.in_tag, name_ok(self.tag@), keys_ok(attributes), urls_ok(attributes), *ctx == (HtmlContext { body: ctx.body, ..*old(ctx) }),
        it.seq().len() == vf_all@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vf_all@[i],
        attributes.map == Some(attribute_map), vf_all@.len() == entries(*attribute_map).len(), forall|i: int| 0 <= i < vf_all@.len() ==> (#[trigger] vf_all@[i]).0@ == entries(*attribute_map)[i].0 && vf_all@[i].1@ == entries(*attribute_map)[i].1 && name_ok(vf_all@[i].0@) && fit(vf_all@[i].0@, vf_all@[i].1@),
        ctx.body@ =~= old(ctx).body@ + both(attributes, attributes.entries@.len() as int) + own(attributes, attributes.entries@.len() as int) + theirs(attributes, entries(*attribute_map), it.index()),
        forall|k: Seq<char>| #[trigger] merged@.contains(k) <==> twice_to(attributes, attributes.entries@.len() as int, k),
//@in 3
    proof {
        assert(*vf_kv == vf_all@[it.index() as int]);
        cat_one(vf_kv.1);
    }
//@past 0 `let vf_one = [value];`
    proof { assert(vf_one@ =~= seq![value]); }
//@end
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't>` content_start r
//@sub `self.ctx` => `ctx`
//@sig
fn content_start(&mut self, ctx: &mut HtmlContext)
//@spec
    requires tagging(old(ctx).doc(), old(self).tag@), old(self).in_tag, !old(self).in_contents, name_ok(old(self).tag@), !void(old(self).tag@),
    ensures *final(self) == (HtmlBuilderTag { tag: old(self).tag, in_tag: false, in_contents: true }), final(ctx).doc() == (Doc { mode: Mode::Text, stack: old(ctx).doc().stack.push(old(self).tag@), ent: false }),
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }),
//@end
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't>` contents r
//@sub `self.content_start(); item.render(self.ctx); self` => `self.content_start(ctx); item.render(ctx);`
//@sig
fn contents<R: ItemRender>(&mut self, ctx: &mut HtmlContext, item: R)
//@spec
    requires tagging(old(ctx).doc(), old(self).tag@), old(self).in_tag, !old(self).in_contents, plain_tag(old(self).tag@),
    ensures *final(self) == (HtmlBuilderTag { tag: old(self).tag, in_tag: false, in_contents: true }), final(ctx).doc() == (Doc { mode: Mode::Text, stack: old(ctx).doc().stack.push(old(self).tag@), ent: false }),
        final(ctx).kept(*old(ctx)), item.is_text() ==> final(ctx).wrote(*old(ctx)),
//@end
// The closing of a tag is the end of its value.
//@fn src/render/html/builder.rs @ `impl Drop for HtmlBuilderTag<'_, '_, '_, '_, '_>` drop r
//@sub `self.ctx` => `ctx`
//@sig
fn finish(self, ctx: &mut HtmlContext)
//@spec
    requires name_ok(self.tag@), !old(ctx).doc().ent,
        self.in_tag ==> !self.in_contents && tagging(old(ctx).doc(), self.tag@),
        !self.in_tag ==> self.in_contents && !void(self.tag@) && (old(ctx).doc().mode is Text || (old(ctx).doc().mode is Lt && inside_raw(old(ctx).doc()))) && old(ctx).doc().stack.len() > 0 && old(ctx).doc().stack.last() == self.tag@,
    ensures final(ctx).doc() == (Doc { mode: Mode::Text, stack: if self.in_tag { old(ctx).doc().stack } else { old(ctx).doc().stack.drop_last() }, ent: false }),
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }),
//@pre
    let ghost mut d = ctx.doc();
    proof {
        if self.in_tag { d = opened(d, self.tag@); }
        let e = step(step(d, '<'), '/');
        reveal_strlit("</"); doc_one(d, '<'); doc_add(d, seq!['<'], seq!['/']); doc_one(step(d, '<'), '/');
        assert("</"@ =~= seq!['<'] + seq!['/']);
        if !void(self.tag@) { doc_close(e, self.tag@); }
    }
//@end
}
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilder<'c, 'i, 'h, 'e, 't>` tag r
//@sub `let HtmlBuilder { ctx } = self;` => ``
//@sig
pub fn vf_tag<'t>(ctx: &mut HtmlContext, tag: &'t str) -> (r: HtmlBuilderTag<'t>)
//@spec
    requires text_at(old(ctx).doc()), name_ok(tag@),
    ensures r == (HtmlBuilderTag { tag, in_tag: true, in_contents: false }), final(ctx).doc() == at(old(ctx).doc(), Mode::Open(tag@)),
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }),
//@end
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilder<'c, 'i, 'h, 'e, 't>` element r
//@methods starts_with
//@sub `self.tag(tag)` => `vf_tag(ctx, tag)`
//@sig
pub fn vf_element<'t>(ctx: &mut HtmlContext, tag: &'t str) -> (r: HtmlBuilderTag<'t>)
//@spec
    requires text_at(old(ctx).doc()), name_ok(tag@), starts(tag@, "wj-"@),
    ensures r == (HtmlBuilderTag { tag, in_tag: true, in_contents: false }), final(ctx).doc() == at(old(ctx).doc(), Mode::Open(tag@)),
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }),
//@end
//@fn src/render/html/builder.rs @ `impl<'c, 'i, 'h, 'e, 't> HtmlBuilder<'c, 'i, 'h, 'e, 't>` table_cell r
//@sub `self.tag($t)` => `vf_tag(ctx, $t)`
//@sig
pub fn vf_table_cell(ctx: &mut HtmlContext, header: bool) -> (r: HtmlBuilderTag<'static>)
//@spec
    requires text_at(old(ctx).doc()),
    ensures r.in_tag, !r.in_contents, r.tag@ == (if header { "th"@ } else { "td"@ }), final(ctx).doc() == at(old(ctx).doc(), Mode::Open(r.tag@)),
        *final(ctx) == (HtmlContext { body: final(ctx).body, ..*old(ctx) }),
//@pre
    proof { reveal_strlit("th"); reveal_strlit("td"); }
//@end
