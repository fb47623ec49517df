// C01, C06, C08, C09, C11, C18, C25: blocks with a body, and those around footnotes and bibliographies.
//@import blocks3 biblio deflist
//@use strx unicase fmt unstructured

//@fn src/parsing/rule/impls/block/blocks/align.rs parse_alignment_block r
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@sig
pub fn parse_alignment_block<'r, 't>(vf_which: (&BlockRule, Alignment), parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).called(vf_which.0@, name@, flag_star, flag_score), !vf_which.0@.star, !vf_which.0@.score,
    ensures final(parser).ruled(old(parser), r), aligned(vf_which.1, r),
//@pre
    let (block_rule, alignment) = vf_which;
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
// One container aligned like this, with paragraphs in it.
pub open spec fn aligned<'r, 't>(a: Alignment, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && body_in_paragraphs(r) && match r->Ok_0.item@[0] {
        Element::Container(x) => x.ctype == ContainerType::Align(a) && x.attributes@ == Map::<Seq<char>, Seq<char>>::empty() && no_partial(x.elements@),
        _ => false,
    }
}
//@pin src/parsing/rule/impls/block/blocks/align.rs `parse_alignment_block( (&$block_const, Alignment::$align), parser, name, flag_star, flag_score, in_head, )`
fn block_align_center<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires old(parser).called(the(BFun::AlignCenter), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), aligned(Alignment::Center, r),
{ parse_alignment_block((&BLOCK_ALIGN_CENTER(), Alignment::Center), parser, name, flag_star, flag_score, in_head) }
fn block_align_justify<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires old(parser).called(the(BFun::AlignJustify), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), aligned(Alignment::Justify, r),
{ parse_alignment_block((&BLOCK_ALIGN_JUSTIFY(), Alignment::Justify), parser, name, flag_star, flag_score, in_head) }
fn block_align_left<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires old(parser).called(the(BFun::AlignLeft), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), aligned(Alignment::Left, r),
{ parse_alignment_block((&BLOCK_ALIGN_LEFT(), Alignment::Left), parser, name, flag_star, flag_score, in_head) }
fn block_align_right<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires old(parser).called(the(BFun::AlignRight), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), aligned(Alignment::Right, r),
{ parse_alignment_block((&BLOCK_ALIGN_RIGHT(), Alignment::Right), parser, name, flag_star, flag_score, in_head) }
pub open spec fn places() -> Seq<(&'static str, (bool, bool))> { seq![("top", (true, false)), ("bottom", (false, true)), ("both", (true, true)), ("neither", (false, false)), ("none", (false, false))] }
pub open spec fn place_is(n: Seq<char>, i: int, v: (bool, bool)) -> bool { 0 <= i < 5 && eq_nocase(places()[i].0@, n) && v == places()[i].1 }
// Where the link which hides a collapsible is: at the top, at the bottom.
pub open spec fn placed_at(s: Seq<char>, v: (bool, bool)) -> bool { exists|i: int| #[trigger] place_is(trim(s), i, v) }
//@fn src/parsing/rule/impls/block/blocks/collapsible.rs parse_hide_location r
//@sub `const NAMES: [(&str, (bool, bool)); 5] = [ $X ];` => `let vf_names: [(&str, (bool, bool)); 5] = [ $X ];`
//@sub `for &(name, value) in &NAMES {` => `for vf_p in vf_names.iter() { let (name, value) = *vf_p;`
//@methods trim eq_ignore_ascii_case
//@sig
fn parse_hide_location(vf_s: &str, parser: &Parser) -> (r: Result<(bool, bool), ParseError>)
//@spec
    ensures r.is_ok() ==> placed_at(vf_s@, r->Ok_0),
//@pre
    let s = vf_s;
//@at 0 `let s`
    proof { assert(vf_names@ =~= places()); }
//@loop 0 it
    invariant
        it.seq().len() == 5, vf_names@ == places(), s@ == trim(vf_s@),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vf_names@[i],
//@in 0
    proof { assert(*vf_p == vf_names@[it.index()]); if eq_nocase(vf_p.0@, s@) { assert(place_is(s@, it.index(), vf_p.1)); } }
//@end
// Whether an argument says yes.
pub open spec fn yes<'t>(m: Map<Seq<char>, Cow<'t, str>>, key: Seq<char>, other: bool) -> bool { match arg(m, key) { Some(s) => boolean(s) == Some(true), None => other } }
pub open spec fn collapses<'t>(m: Map<Seq<char>, Cow<'t, str>>, isolate: bool, e: Element<'t>) -> bool {
    match e {
        Element::Collapsible { elements, attributes, start_open, show_text, hide_text, show_top, show_bottom } => {
            let rest = m.remove(lower("show"@)).remove(lower("hide"@)).remove(lower("folded"@)).remove(lower("hideLocation"@));
            &&& in_paragraphs(elements@) && no_partial(elements@)
            &&& attributes@ == attributes_of(rest, isolate)
            &&& texted(show_text) == arg(m, "show"@) && texted(hide_text) == arg(m, "hide"@)
            &&& start_open == !yes(m, "folded"@, true)
            &&& match arg(m, "hideLocation"@) { Some(s) => placed_at(s, (show_top, show_bottom)), None => show_top && !show_bottom }
        },
        _ => false,
    }
}
//@fn src/parsing/rule/impls/block/blocks/collapsible.rs parse_fn r
//@rename block_collapsible
//@sub `&BLOCK_COLLAPSIBLE` => `&BLOCK_COLLAPSIBLE()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sub `!arguments.get_bool(parser, "folded")?.unwrap_or(true)` => `!(match arguments.get_bool(parser, "folded")? { Some(vf_b) => vf_b, None => true })`
//@sub `parse_hide_location(&value, parser)` => `parse_hide_location(vf_text(&value), parser)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Collapsible), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> heads(old(parser), in_head, |m: Map<Seq<char>, Cow<'t, str>>| collapses(m, old(parser).settings.isolate_user_ids, r->Ok_0.item@[0])),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    proof {
        reveal_strlit("show"); reveal_strlit("hide"); reveal_strlit("folded"); reveal_strlit("hideLocation");
        assert(lower("show"@)[0] == 's'); assert(lower("hide"@)[0] == 'h'); assert(lower("folded"@)[0] == 'f'); assert(lower("hideLocation"@)[0] == 'h'); assert(lower("hideLocation"@).len() == 12); assert(lower("hide"@).len() == 4);
    }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@at 0 `let element`
    proof {
        assert(in_paragraphs(elements@));
        assert(texted(show_text) == arg(m0, "show"@)); assert(texted(hide_text) == arg(m0, "hide"@)); assert(start_open == !yes(m0, "folded"@, true));
        assert(arguments.inner@ =~= m0.remove(lower("show"@)).remove(lower("hide"@)).remove(lower("folded"@)).remove(lower("hideLocation"@)));
    }
//@end
//@fn src/parsing/rule/impls/block/blocks/include_wikidot.rs parse_fn r
//@rename block_include_wikidot
//@sub `&BLOCK_INCLUDE_WIKIDOT` => `&BLOCK_INCLUDE_WIKIDOT()`
//@macros
//@spec
    requires old(parser).called(the(BFun::IncludeWikidot), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), r.is_err(), *final(parser) == *old(parser),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
impl<'t> Arguments<'t> {
//@fn src/parsing/rule/impls/block/arguments.rs @ `impl<'t> Arguments<'t>` is_empty r
//@sub `self.inner.is_empty()` => `vf_map_empty(&self.inner)`
//@spec
    ensures r == (self.inner@ =~= Map::<Seq<char>, Cow<'t, str>>::empty()),
//@end
}
//@assume HashMap::is_empty
#[verifier::external_body]
fn vf_map_empty<V>(m: &CaseMap<V>) -> (r: bool) ensures r == (m@ =~= Map::<Seq<char>, V>::empty()) { unimplemented!() }
pub open spec fn lists_notes<'t>(m: Map<Seq<char>, Cow<'t, str>>, e: Element<'t>) -> bool {
    match e {
        Element::FootnoteBlock { title, hide } => {
            // no other argument is known
            &&& m.remove(lower("title"@)).remove(lower("hide"@)) =~= Map::empty()
            &&& texted(title) == arg(m, "title"@) && hide == yes(m, "hide"@, false)
        },
        _ => false,
    }
}
//@fn src/parsing/rule/impls/block/blocks/footnote.rs parse_footnote_block r
//@rename block_footnote_block
//@sub `&BLOCK_FOOTNOTE_BLOCK` => `&BLOCK_FOOTNOTE_BLOCK()`
//@sub `arguments.get_bool(parser, "hide")?.unwrap_or(false)` => `(match arguments.get_bool(parser, "hide")? { Some(vf_b) => vf_b, None => false })`
//@macros
//@spec
    requires old(parser).called(the(BFun::FootnoteBlock), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> !old(parser).in_footnote && final(parser).has_footnote_block && heads(old(parser), in_head, |m: Map<Seq<char>, Cow<'t, str>>| lists_notes(m, r->Ok_0.item@[0])), final(parser).same_lists(old(parser)),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    proof { reveal_strlit("title"); reveal_strlit("hide"); assert(lower("title"@)[0] == 't'); assert(lower("hide"@)[0] == 'h'); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@end
// The variables are the arguments.
pub uninterp spec fn variables_of<'t>(m: Map<Seq<char>, Cow<'t, str>>) -> VariableMap<'t>;
//@pin src/parsing/rule/impls/block/arguments.rs `self.inner.iter().map(|(key, value)| { let key = cow!(key.into_inner()); let value = value.clone(); (key, value) }).collect()`
impl<'t> Arguments<'t> {
    #[verifier::external_body]
    pub fn to_hash_map(&self) -> (r: VariableMap<'t>) ensures r == variables_of(self.inner@) { unimplemented!() }
}
//@fn src/parsing/rule/impls/block/blocks/include_elements.rs include_page r
//@sub `Default::default()` => `BibliographyList::default()`
//@macros
//@spec
    ensures r.is_ok(), ({
        let u = r->Ok_0;
        &&& u.result.is_ok() && u.result->Ok_0.errors@.len() == 0 && u.result->Ok_0.item@.len() == 1 && u.result->Ok_0.item@[0] is Text && !u.result->Ok_0.paragraph_safe
        &&& u.html_blocks@.len() == 0 && u.code_blocks@.len() == 0 && u.table_of_contents_depths@.len() == 0 && u.footnotes@.len() == 0 && u.bibliographies.0@.len() == 0 && !u.has_footnote_block
    }),
//@end
pub open spec fn includes_elements<'t>(n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>, e: Element<'t>) -> bool {
    match e {
        Element::Include { paragraph_safe, variables, location, elements } => variables == variables_of(m) && !paragraph_safe && match page_of(n) { Some((site, page)) => opt(location.site) == site && location.page@ == page, None => false },
        _ => false,
    }
}
//@fn src/parsing/rule/impls/block/blocks/include_elements.rs parse_fn r
//@rename block_include_elements
//@sub `&BLOCK_INCLUDE_ELEMENTS` => `&BLOCK_INCLUDE_ELEMENTS()`
//@macros
//@spec
    requires old(parser).called(the(BFun::IncludeElements), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> old(parser).settings.enable_page_syntax && name_heads(old(parser), |n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>| includes_elements(n, m, r->Ok_0.item@[0])), final(parser).same_lists(old(parser)),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = variables.inner@;
    proof { assert(name_head(&p0, page_name@, m0)); }
//@end
// The entries, one after the other: the one written first wins.
pub open spec fn added<'t>(b: Seq<(Seq<char>, Seq<Element<'t>>)>, items: Seq<DefinitionListItem<'t>>) -> Seq<(Seq<char>, Seq<Element<'t>>)>
    decreases items.len(),
{
    if items.len() == 0 { b } else {
        let c = added(b, items.drop_last());
        if first_with(c, items.last().key_string@).is_some() { c } else { c.push((items.last().key_string@, items.last().value_elements@)) }
    }
}
pub open spec fn added_all<'t>(s: Seq<Element<'t>>) -> Seq<(Seq<char>, Seq<Element<'t>>)>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Element::DefinitionList(items) => added(added_all(s.drop_last()), items@), _ => added_all(s.drop_last()) } } }
pub open spec fn lists_only<'t>(s: Seq<Element<'t>>) -> bool { forall|i: int| 0 <= i < s.len() ==> white(#[trigger] s[i]) || s[i] is DefinitionList }
// What is in the block is lists of definitions, and the entries are theirs.
pub open spec fn booked<'t>(b: Bibliography<'t>) -> bool { exists|s: Seq<Element<'t>>| #[trigger] lists_only(s) && b@ == added_all(s) && no_partial(s) }
pub open spec fn books<'t>(m: Map<Seq<char>, Cow<'t, str>>, n: int, e: Element<'t>) -> bool {
    match e { Element::BibliographyBlock { index, title, hide } => index == n && texted(title) == arg(m, "title"@) && hide == yes(m, "hide"@, false), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/bibliography.rs parse_fn r
//@rename block_bibliography
//@sub `&BLOCK_BIBLIOGRAPHY` => `&BLOCK_BIBLIOGRAPHY()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sub `arguments.get_bool(parser, "hide")?.unwrap_or(false)` => `(match arguments.get_bool(parser, "hide")? { Some(vf_b) => vf_b, None => false })`
//@sub `match element { Element::DefinitionList(items) => { $A } _ if element.is_whitespace() => continue, _ => { $B } }` => `match element { Element::DefinitionList(items) => { $A } vf_element => { if vf_element.is_whitespace() { } else { $B } } }`
//@sub `for DefinitionListItem { key_string, value_elements, .. } in items {` => `for vf_item in items { let DefinitionListItem { key_string, value_elements, .. } = vf_item;`
//@macros
//@spec
    requires old(parser).called(the(BFun::Bibliography), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> heads(old(parser), in_head, |m: Map<Seq<char>, Cow<'t, str>>| books(m, final(parser).bibliographies.0@.len() - 1, r->Ok_0.item@[0])) && booked(final(parser).bibliographies.0@.last()) && distinct(final(parser).bibliographies.0@.last()@),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    proof { reveal_strlit("title"); reveal_strlit("hide"); assert(lower("title"@)[0] == 't'); assert(lower("hide"@)[0] == 'h'); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@at 0 `for element in`
    let ghost s = elements@;
//@loop 0 it
    invariant
        it.seq() == s, *old(parser) == p0, parser.ran(&p0), bibliography@ == added_all(s.take(it.index())), lists_only(s.take(it.index())), distinct(bibliography@),
//@in 0
    proof { let n = it.index(); assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); assert(element == s[n]); }
//@loop 1 it2
    invariant
        it2.seq() == items@, bibliography@ == added(b1, items@.take(it2.index())), distinct(bibliography@),
//@outside 1
    let ghost b1 = bibliography@;
    proof { assert(items@.take(0).len() == 0); }
//@in 1
    proof { let n = it2.index(); assert(items@.take(n + 1).drop_last() =~= items@.take(n)); assert(items@.take(n + 1).last() == items@[n]); }
//@after 1
    proof { assert(items@.take(items@.len() as int) =~= items@); }
//@after 0
    proof { assert(s.take(s.len() as int) =~= s); assert(lists_only(s)); }
//@end
//@assume parse_date(), parse_timezone() and add_timezone() (they read times with the time crate) return
//@pin src/parsing/rule/impls/block/blocks/date.rs `#[derive(Debug, PartialEq, Eq)] struct DateParseError;`
pub struct DateParseError;
#[verifier::external_body]
pub struct UtcOffset { x: i32 }
#[verifier::external_body]
fn parse_date(value: &str) -> (r: Result<DateItem, DateParseError>) { unimplemented!() }
#[verifier::external_body]
fn parse_timezone(value: &str) -> (r: Result<UtcOffset, DateParseError>) { unimplemented!() }
impl DateItem {
    #[verifier::external_body]
    pub fn add_timezone(self, offset: UtcOffset) -> (r: Option<Self>) { unimplemented!() }
}
//@fn src/parsing/rule/impls/block/blocks/date.rs parse_fn r
//@rename block_date
//@sub `&BLOCK_DATE` => `&BLOCK_DATE()`
//@sub `arguments.get_bool(parser, "hover")?.unwrap_or(true)` => `(match arguments.get_bool(parser, "hover")? { Some(vf_b) => vf_b, None => true })`
//@sub `parse_date(value).map_err(|_| $X)?` => `(match parse_date(value) { Ok(vf_d) => vf_d, Err(_) => return Err($X) })`
//@sub `parse_timezone(&arg).map_err(|_| $X)?` => `(match parse_timezone(vf_text(&arg)) { Ok(vf_d) => vf_d, Err(_) => return Err($X) })`
//@macros
//@spec
    requires old(parser).called(the(BFun::Date), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> name_heads(old(parser), |n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>| match r->Ok_0.item@[0] { Element::Date { value, format, hover } => texted(format) == arg(m, "format"@) && hover == yes(m, "hover"@, true), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    proof { reveal_strlit("format"); reveal_strlit("tz"); reveal_strlit("hover"); assert(lower("format"@)[0] == 'f'); assert(lower("tz"@)[0] == 't'); assert(lower("hover"@)[0] == 'h'); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(name_head(&p0, value@, m0)); }
//@end
