// C20, C26: what each mode allows, and the interwiki prefixes there are unless others are given.
use std::borrow::Cow;
//@use settings
#[verifier::external_body]
pub fn vf_cow(s: &'static str) -> (r: Cow<'static, str>) ensures r@ == s@ { unimplemented!() }
//@type src/settings/mod.rs DEFAULT_MINIFY_CSS
//@end
pub open spec fn documented() -> Map<Seq<char>, Seq<char>> {
    Map::empty()
        .insert("wikipedia"@, "https://wikipedia.org/wiki/$$"@).insert("wp"@, "https://wikipedia.org/wiki/$$"@).insert("commons"@, "https://commons.wikimedia.org/wiki/$$"@)
        .insert("google"@, "https://google.com/search?q=$$"@).insert("duckduckgo"@, "https://duckduckgo.com/?q=$$"@).insert("ddg"@, "https://duckduckgo.com/?q=$$"@)
        .insert("dictionary"@, "https://dictionary.com/browse/$$"@).insert("thesaurus"@, "https://thesaurus.com/browse/$$"@)
}
pub open spec fn is_documented(m: Map<Seq<char>, Seq<char>>) -> bool { m =~= documented() }
pub proof fn prefixes_differ()
    ensures
        "wikipedia"@.len() == 9, "wikipedia"@[0] == 'w', "wp"@.len() == 2, "commons"@.len() == 7, "google"@.len() == 6, "duckduckgo"@.len() == 10, "duckduckgo"@[1] == 'u',
        "ddg"@.len() == 3, "dictionary"@.len() == 10, "dictionary"@[1] == 'i', "thesaurus"@.len() == 9, "thesaurus"@[0] == 't',
{
    reveal_strlit("wikipedia"); reveal_strlit("wp"); reveal_strlit("commons"); reveal_strlit("google"); reveal_strlit("duckduckgo"); reveal_strlit("ddg"); reveal_strlit("dictionary"); reveal_strlit("thesaurus");
}
//@type src/settings/interwiki.rs DEFAULT_INTERWIKI
//@sub `cow!($A) => cow!($B),` => `vf_m.insert(vf_cow($A), vf_cow($B));`
//@sub `static DEFAULT_INTERWIKI: Lazy<InterwikiSettings> = Lazy::new(|| InterwikiSettings { prefixes: hashmap! { $B }, });` => `fn default_interwiki() -> (r: InterwikiSettings) ensures is_documented(r.prefixes@) { proof { prefixes_differ(); } let mut vf_m = StrMap::new(); $B InterwikiSettings { prefixes: vf_m } }`
//@end
// Pages, drafts and lists have all features; forum posts and messages neither the syntax of pages nor local files.
pub open spec fn of_page(m: WikitextMode) -> bool { m is Page || m is Draft || m is List }
impl WikitextSettings {
//@fn src/settings/mod.rs @ `impl WikitextSettings` from_mode r
//@sub `DEFAULT_INTERWIKI.clone()` => `default_interwiki()`
//@sub `Self` => `WikitextSettings`
//@spec
    ensures r.mode == mode, r.layout == layout, r.enable_page_syntax == of_page(mode), r.allow_local_paths == of_page(mode), r.use_true_ids == (mode is Page),
        !r.isolate_user_ids, !r.use_include_compatibility, r.minify_css, is_documented(r.interwiki.prefixes@),
//@end
}
