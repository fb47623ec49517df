// C15, C26: how the text of a link is taken apart.
use std::borrow::Cow;
//@import url pageref interwiki
//@use settings
//@use linktypes
//@use linktype
impl<'t> PageRef<'t> {
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` to_owned r
//@sub `macro_rules! owned { $BODY }` => ``
//@sub `self.site.ref_map(|value| owned!(value))` => `match &self.site { Some(value) => Some(vf_owned(value)), None => None }`
//@sub `owned!(self.page)` => `vf_owned(&self.page)`
//@spec
    ensures r.page@ == self.page@, r.site.is_some() == self.site.is_some(), self.site.is_some() ==> r.site->Some_0@ == self.site->Some_0@,
//@end
}
// Cow::Owned(value.as_ref().to_owned())
#[verifier::external_body]
pub fn vf_owned(s: &Cow<str>) -> (r: Cow<'static, str>) ensures r@ == s@ { unimplemented!() }
//@use cowtext
// The first piece of a split.
pub fn vf_first<'a>(v: Vec<&'a str>) -> (r: &'a str)
    requires v.len() > 0,
    ensures r == v[0],
{ v[0] }

pub enum Want { Url(Seq<char>), Page(Option<Seq<char>>, Seq<char>) }
pub open spec fn direct(s: Seq<char>) -> bool { has_known_scheme(s) || starts(s, seq!['#']) || starts(s, seq!['/']) }
pub open spec fn cut(s: Seq<char>, c: char) -> Seq<char> { if find(s, seq![c]) >= 0 { s.take(find(s, seq![c])) } else { s } }
pub open spec fn location(s: Seq<char>) -> Want {
    if direct(s) { Want::Url(s) }
    else {
        let t = cut(cut(s, '#'), '/');
        match page_of(t) { None => Want::Url(t), Some((site, page)) => Want::Page(site, page) }
    }
}
pub open spec fn same(l: LinkLocation, w: Want) -> bool {
    match (l, w) {
        (LinkLocation::Url(u), Want::Url(v)) => u@ == v,
        (LinkLocation::Page(p), Want::Page(site, page)) => p.page@ == page && match (p.site, site) { (None, None) => true, (Some(a), Some(b)) => a@ == b, _ => false },
        _ => false,
    }
}
pub proof fn split_first(s: Seq<char>, c: char)
    ensures split(s, seq![c]).len() >= 1, split(s, seq![c])[0] == cut(s, c),
{ split_len(s, seq![c]); find_char(s, c); }
impl<'a> LinkLocation<'a> {
//@fn src/tree/link.rs @ `impl<'a> LinkLocation<'a>` link_type r
//@spec
    ensures r == match self { LinkLocation::Page(_) => LinkType::Page, LinkLocation::Url(_) => LinkType::Direct },
//@end
//@fn src/tree/link.rs @ `impl<'a> LinkLocation<'a>` parse r
//@sub `link.as_ref()` => `vf_text(&link)`
//@sub `link_str.split($x).next().expect($m).split($y).next().expect($n)` => `vf_first(vf_first(link_str.x_split($x)).x_split($y))`
//@methods starts_with
//@sub `link_str.to_owned()` => `link_str.x_to_owned()`
//@spec
    ensures same(r, location(link@)),
//@pre
    proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
//@at 0 `link_str = vf_first`
    proof { split_first(link_str@, '#'); split_first(cut(link_str@, '#'), '/'); }
//@end
//@fn src/tree/link.rs @ `impl<'a> LinkLocation<'a>` parse_interwiki r
//@sub `link.as_ref().strip_prefix('!')` => `vf_text(&link).x_strip_prefix('!')`
//@sub `settings.interwiki.build(link).map(|url| $x)` => `match settings.interwiki.build(link) { Some(url) => Some($x), None => None }`
//@spec
    ensures
        // a target with an exclamation mark is an interwiki link or nothing
        starts(link@, seq!['!']) ==> match expand(settings.interwiki.prefixes@, link@.skip(1)) {
            Some(u) => r.is_some() && same(r->Some_0.0, Want::Url(u)) && r->Some_0.1 == LinkType::Interwiki,
            None => r.is_none(),
        },
        !starts(link@, seq!['!']) ==> r.is_some() && same(r->Some_0.0, location(link@))
            && r->Some_0.1 == (match location(link@) { Want::Url(_) => LinkType::Direct, Want::Page(_, _) => LinkType::Page }),
//@end
//@fn src/tree/link.rs @ `impl<'a> LinkLocation<'a>` parse_extra r
//@sub `link.as_ref()` => `vf_text(&link)`
//@sub `link_str.splitn(2, $p).collect()` => `link_str.x_splitn2($p)`
//@sub `split_anchor[0].splitn(2, $p).collect()` => `split_anchor[0].x_splitn2($p)`
//@sub `split_path.join($p)` => `vf_join(&split_path, $p)`
//@sub `split_anchor.join($p)` => `vf_join(&split_anchor, $p)`
//@sub `path.is_empty()` => `path.x_is_empty()`
//@sub `&path` => `path.as_str()`
//@sub `path = vf_join(&split_anchor, "#");` => `let path = vf_join(&split_anchor, "#");`
//@methods starts_with
//@spec
    ensures r.is_some() == (extra(link@).len() > 0), r.is_some() ==> r->Some_0@ == extra(link@),
//@pre
    proof {
        reveal_strlit("/"); reveal_strlit("#"); reveal_strlit(""); reveal_with_fuel(join, 3);
        assert("/"@ =~= seq!['/']); assert("#"@ =~= seq!['#']); assert(""@ =~= Seq::<char>::empty());
        find_char(link@, '#'); find_char(cut(link@, '#'), '/');
    }
//@at 0 `split_path[0]`
    let ghost sp = split_path@;
    let ghost sa = split_anchor@;
    proof { assert(sa[0]@ == cut(link@, '#')); assert(sp[0]@ == cut(cut(link@, '#'), '/')); }
//@at 0 `split_anchor[0] =`
    let ghost c = cut(link@, '#');
    let ghost d = cut(c, '/');
    proof {
        assert(texts(split_path@)[0] =~= Seq::<char>::empty());
        if sp.len() == 2 {
            assert(split_path@[1] == sp[1]);
            assert(texts(split_path@).skip(1) =~= seq![sp[1]@]);
            assert(join(seq![sp[1]@], seq!['/']) == sp[1]@);
            assert(path@ =~= seq!['/'] + sp[1]@);
        }
        assert(path@ =~= c.skip(d.len() as int));
    }
//@at 0 `let path = vf_join(&split_anchor`
    proof {
        assert(texts(split_anchor@)[0] == c.skip(d.len() as int));
        if sa.len() == 2 {
            assert(texts(split_anchor@).skip(1) =~= seq![sa[1]@]);
            assert(join(seq![sa[1]@], seq!['#']) == sa[1]@);
            assert(join(texts(split_anchor@), seq!['#']) =~= c.skip(d.len() as int) + seq!['#'] + sa[1]@);
            assert(link@ =~= c + seq!['#'] + sa[1]@);
        } else { assert(link@ == c); }
        assert(join(texts(split_anchor@), seq!['#']) =~= link@.skip(d.len() as int));
    }
//@end
}
// What of a target is kept apart from the page: the rest, so that nothing of it is lost.
pub open spec fn extra(s: Seq<char>) -> Seq<char> {
    if direct(s) || starts(s, seq!['!']) { Seq::empty() } else { s.skip(cut(cut(s, '#'), '/').len() as int) }
}
