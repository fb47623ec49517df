// C21, C24: links are collected, and footnotes, equations, headings and code blocks numbered, one by one.
//@import builder url
//@assume there are fewer than 2^64 footnotes, equations, headings and code blocks
#[verifier::external_body]
pub proof fn few(n: nat) ensures n < usize::MAX { }
#[verifier::external_body]
pub fn vf_some<T>(o: Option<T>) -> (r: T)
    requires o.is_some(),
    ensures Some(r) == o,
{ unimplemented!() }
// Cow<str> == "..." and others
#[verifier::external_body]
pub fn vf_owned(s: &str) -> (r: Cow<'static, str>) ensures r@ == s@ { Cow::Owned(s.to_string()) }
impl<'t> PageRef<'t> {
    // proved in unit owned
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: PageRef<'static>) ensures r == *self { unimplemented!() }
}
impl Backlinks<'static> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.included_pages@.len() == 0, r.internal_links@.len() == 0, r.external_links@.len() == 0 { unimplemented!() }
}
//@pin src/data/backlinks.rs `#[derive(Serialize, Deserialize, Debug, Clone, Hash, PartialEq, Eq, Default)]`
//@pin src/data/backlinks.rs `Backlinks::default()`
pub open spec fn local(t: Seq<char>) -> Seq<char> { if starts(t, seq!['/']) { t.skip(1) } else { t } }
// Where a link is noted: links into the wiki by page, links elsewhere by their address, links within the page not at all.
pub open spec fn noted(b: Backlinks<'static>, link: LinkLocation, n: Backlinks<'static>) -> bool {
    n.included_pages@ == b.included_pages@ && match link {
        LinkLocation::Page(p) => n.external_links@ == b.external_links@ && pages(n.internal_links@) == pages(b.internal_links@).push(page_name(p)),
        LinkLocation::Url(u) => if u@ == "javascript:;"@ || starts(u@, seq!['#']) { n.internal_links@ == b.internal_links@ && n.external_links@ == b.external_links@ }
            else if has_known_scheme(local(u@)) { n.internal_links@ == b.internal_links@ && urls(n.external_links@) == urls(b.external_links@).push(local(u@)) }
            else { n.external_links@ == b.external_links@ && pages(n.internal_links@) == pages(b.internal_links@).push((None, local(u@))) },
    }
}
pub proof fn noted_more(b: Backlinks<'static>, link: LinkLocation, n: Backlinks<'static>)
    requires noted(b, link, n),
    ensures more(b, n),
{
    reveal(more);
    let (x, y, z) = (pages(b.included_pages@), pages(b.internal_links@), urls(b.external_links@));
    assert(pages(n.included_pages@).take(x.len() as int) =~= x); assert(pages(n.internal_links@).take(y.len() as int) =~= y); assert(urls(n.external_links@).take(z.len() as int) =~= z);
}
impl PageCache {
    // for which pages it has an answer, and which
    pub uninterp spec fn view(&self) -> Map<(Option<Seq<char>>, Seq<char>), bool>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<(Option<Seq<char>>, Seq<char>), bool>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, p: &PageRef) -> (r: Option<&bool>) ensures match r { Some(b) => self@.contains_key(page_name(*p)) && self@[page_name(*p)] == *b, None => !self@.contains_key(page_name(*p)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, p: PageRef<'static>, b: bool) ensures final(self)@ == old(self)@.insert(page_name(p), b) { unimplemented!() }
}
pub uninterp spec fn exists_page(site: Seq<char>, page: Seq<char>) -> bool;
impl Handle {
    //@assume whether a page exists depends on its site and name only
    #[verifier::external_body]
    pub fn get_page_exists(&self, site: &str, page: &str) -> (r: bool) ensures r == exists_page(site@, page@) { unimplemented!() }
}
impl Random {
    #[verifier::external_body]
    pub fn default() -> Self { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_blank_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
    // Answers about pages are those for this site.
    pub open spec fn cache_ok(&self) -> bool {
        forall|k: (Option<Seq<char>>, Seq<char>)| self.pages_exists@.contains_key(k) ==> #[trigger] self.pages_exists@[k] == exists_page(match k.0 { Some(s) => s, None => self.info.site@ }, k.1)
    }
    #[verifier::external_body]
    pub fn initial_metadata(info: &PageInfo) -> Vec<HtmlMeta> { unimplemented!() }
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` new r
//@sub `let capacity = { $BODY };` => ``
//@sub `String::with_capacity(capacity)` => `vf_blank_string()`
//@sub `Self::initial_metadata(info, settings.layout)` => `Self::initial_metadata(info)`
//@sub `HashMap::new()` => `PageCache::new()`
//@sub `NonZeroUsize::new(1).unwrap()` => `vf_some(NonZeroUsize::new(1))`
//@spec
    ensures r.doc() == blank(), r.info == info, r.settings == settings, r.table_of_contents == table_of_contents, r.footnotes == footnotes, r.bibliographies == bibliographies,
        r.footnote_index@ == 1, r.equation_index@ == 1, r.code_snippet_index@ == 1, r.table_of_contents_index == 0, !r.in_bibliography_tooltip,
        r.variables@ == Seq::<Map<Seq<char>, Seq<char>>>::empty(), r.cache_ok(),
        r.backlinks.included_pages@.len() == 0, r.backlinks.internal_links@.len() == 0, r.backlinks.external_links@.len() == 0,
//@pre
    proof { doc_empty(); }
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` info r
//@spec
    ensures r == self.info,
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` settings r
//@spec
    ensures r == self.settings,
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` handle r
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` random r
//@spec
    ensures *r == old(self).random, *final(self) == (HtmlContext { random: *final(r), ..*old(self) }),
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` language r
//@sub `&self.info.language` => `vf_str(&self.info.language)`
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` variables r
//@spec
    ensures *r == self.variables,
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` variables_mut r
//@spec
    ensures *r == old(self).variables, *final(self) == (HtmlContext { variables: *final(r), ..*old(self) }),
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` table_of_contents r
//@spec
    ensures r == self.table_of_contents,
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` footnotes r
//@spec
    ensures r == self.footnotes,
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` next_code_snippet_index r
//@sub `NonZeroUsize::new(index.get() + 1).unwrap()` => `vf_some(NonZeroUsize::new(index.get() + 1))`
//@spec
    ensures r == old(self).code_snippet_index, final(self).code_snippet_index@ == r@ + 1, *final(self) == (HtmlContext { code_snippet_index: final(self).code_snippet_index, ..*old(self) }),
//@pre
    proof { few(self.code_snippet_index@); }
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` next_table_of_contents_index r
//@spec
    ensures r == old(self).table_of_contents_index, r < usize::MAX, *final(self) == (HtmlContext { table_of_contents_index: (r + 1) as usize, ..*old(self) }),
//@pre
    proof { few(self.table_of_contents_index as nat); }
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` next_equation_index r
//@sub `NonZeroUsize::new(index.get() + 1).unwrap()` => `vf_some(NonZeroUsize::new(index.get() + 1))`
//@spec
    ensures r == old(self).equation_index, final(self).equation_index@ == r@ + 1, *final(self) == (HtmlContext { equation_index: final(self).equation_index, ..*old(self) }),
//@pre
    proof { few(self.equation_index@); }
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` next_footnote_index r
//@sub `NonZeroUsize::new(index.get() + 1).unwrap()` => `vf_some(NonZeroUsize::new(index.get() + 1))`
//@spec
    ensures r == old(self).footnote_index, final(self).footnote_index@ == r@ + 1, *final(self) == (HtmlContext { footnote_index: final(self).footnote_index, ..*old(self) }),
//@pre
    proof { few(self.footnote_index@); }
//@end
//@fn src/render/html/context.rs @ `impl NextIndex<TableOfContentsIndex> for HtmlContext<'_, '_, '_, '_>` next r
//@spec
    ensures r == old(self).table_of_contents_index, r < usize::MAX, *final(self) == (HtmlContext { table_of_contents_index: (r + 1) as usize, ..*old(self) }),
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` in_bibliography_tooltip r
//@spec
    ensures r == self.in_bibliography_tooltip,
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` set_in_bibliography_tooltip r
//@sub `mem::replace(&mut self.in_bibliography_tooltip, value)` => `let vf_was = self.in_bibliography_tooltip; self.in_bibliography_tooltip = value; vf_was`
//@spec
    ensures r == old(self).in_bibliography_tooltip, *final(self) == (HtmlContext { in_bibliography_tooltip: value, ..*old(self) }),
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` get_footnote r
//@sub `self.footnotes.get(usize::from(index_one) - 1).map(|elements| elements.as_slice())` => `let vf_i = index_one.get() - 1; if vf_i < self.footnotes.len() { Some(self.footnotes[vf_i].as_slice()) } else { None }`
//@spec
    ensures match r { Some(s) => index_one@ <= self.footnotes@.len() && s@ == self.footnotes@[index_one@ - 1]@, None => index_one@ > self.footnotes@.len() },
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` add_link
//@methods starts_with
//@sub `let mut link: &str = link;` => `let mut link: &str = vf_str(link);`
//@sub `if link == "javascript:;"` => `if vf_eq(link, "javascript:;")`
//@slices link
//@sub `Cow::Owned(str!(link))` => `vf_owned(link)`
//@sub `cow!(link)` => `link`
//@pre
    proof { reveal_strlit("javascript:;"); }
//@at 0 `link = vf_slice_from`
    proof { assert(link@.take(1) == seq!['/']); assert(link@[0] == link@.take(1)[0]); bi_ends(link@); bi_step(link@, 0); assert(bi(link@, 1) == 1); ci_bi(link@, 1); }
//@spec
    ensures noted(old(self).backlinks, *link, final(self).backlinks), *final(self) == (HtmlContext { backlinks: final(self).backlinks, ..*old(self) }),
//@past 0 `push(page.to_owned());`
    proof { assert(pages(self.backlinks.internal_links@) =~= pages(old(self).backlinks.internal_links@).push(page_name(*page))); }
//@past 0 `external_links.push(link);`
    proof { assert(urls(self.backlinks.external_links@) =~= urls(old(self).backlinks.external_links@).push(link@)); }
//@past 0 `push(page_ref.to_owned());`
    proof { assert(pages(self.backlinks.internal_links@) =~= pages(old(self).backlinks.internal_links@).push((None, link@))); }
//@end
//@fn src/render/html/context.rs @ `impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't>` page_exists r
//@sub `fields_or(&self.info.site)` => `fields_or(vf_str(&self.info.site))`
//@spec
    ensures old(self).cache_ok() ==> r == exists_page(match page_ref.site { Some(s) => s@, None => old(self).info.site@ }, page_ref.page@) && final(self).cache_ok(),
        *final(self) == (HtmlContext { pages_exists: final(self).pages_exists, ..*old(self) }),
//@end
}
