// C01, C05, C09, C11, C18, C25: blocks with arguments and a body.
//@import blocks2 link
//@use strx unicase fmt
// An argument: its name is read in any letter case.
pub open spec fn arg<'t>(m: Map<Seq<char>, Cow<'t, str>>, key: Seq<char>) -> Option<Seq<char>> { if m.contains_key(lower(key)) { Some(m[lower(key)]@) } else { None } }
pub open spec fn texted<'t>(c: Option<Cow<'t, str>>) -> Option<Seq<char>> { match c { Some(x) => Some(x@), None => None } }
// The arguments in the head are such.
pub open spec fn heads<'r, 't>(o: &Parser<'r, 't>, more: bool, f: spec_fn(Map<Seq<char>, Cow<'t, str>>) -> bool) -> bool { exists|m: Map<Seq<char>, Cow<'t, str>>| #[trigger] head(o, more, m) && f(m) }
// The name and the arguments in the head are such.
pub open spec fn name_heads<'r, 't>(o: &Parser<'r, 't>, f: spec_fn(Seq<char>, Map<Seq<char>, Cow<'t, str>>) -> bool) -> bool { exists|name: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>| #[trigger] name_head(o, name, m) && f(name, m) }

// How a name says where to put something.
pub open spec fn floats_as(name: Seq<char>) -> Option<(Alignment, bool)> { if lead(name).is_some() { float_mark(lead(name)->Some_0) } else { None } }
//@fn src/parsing/rule/impls/block/blocks/toc.rs parse_fn r
//@rename block_toc
//@sub `&BLOCK_TABLE_OF_CONTENTS` => `&BLOCK_TABLE_OF_CONTENTS()`
//@sub `FloatAlignment::parse(name).map(|float| float.align)` => `match FloatAlignment::parse(name) { Some(float) => Some(float.align), None => None }`
//@macros
//@spec
    requires old(parser).called(the(BFun::TableOfContents), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> old(parser).settings.enable_page_syntax && heads(old(parser), in_head, |m: Map<Seq<char>, Cow<'t, str>>| match r->Ok_0.item@[0] { Element::TableOfContents { align, attributes } => align == (match floats_as(name@) { Some(f) => Some(f.0), None => None }) && attributes@ == attributes_of(m, old(parser).settings.isolate_user_ids), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/iframe.rs parse_fn r
//@rename block_iframe
//@sub `&BLOCK_IFRAME` => `&BLOCK_IFRAME()`
//@macros
//@spec
    requires old(parser).called(the(BFun::Iframe), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> name_heads(old(parser), |n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>| has_known_scheme(n) && match r->Ok_0.item@[0] { Element::Iframe { url, attributes } => url@ == n && attributes@ == attributes_of(m, old(parser).settings.isolate_user_ids), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(name_head(&p0, url@, m0)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/radio.rs parse_fn r
//@rename block_radio
//@sub `&BLOCK_RADIO` => `&BLOCK_RADIO()`
//@macros
//@spec
    requires old(parser).called(the(BFun::Radio), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> name_heads(old(parser), |n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>| match r->Ok_0.item@[0] { Element::RadioButton { name: name1, checked, attributes } => name1@ == n && checked == flag_star && attributes@ == attributes_of(m, old(parser).settings.isolate_user_ids), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(name_head(&p0, name@, m0)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/checkbox.rs parse_fn r
//@rename block_checkbox
//@sub `&BLOCK_CHECKBOX` => `&BLOCK_CHECKBOX()`
//@macros
//@spec
    requires old(parser).called(the(BFun::Checkbox), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> heads(old(parser), in_head, |m: Map<Seq<char>, Cow<'t, str>>| match r->Ok_0.item@[0] { Element::CheckBox { checked, attributes } => checked == flag_star && attributes@ == attributes_of(m, old(parser).settings.isolate_user_ids), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@end
// Where a picture is.
pub enum Picture { Url(Seq<char>), File1(Seq<char>), File2(Seq<char>, Seq<char>), File3(Seq<char>, Seq<char>, Seq<char>) }
pub open spec fn parts_of(s: Seq<char>) -> Seq<Seq<char>> { split(if starts(s, seq!['/']) { s.skip(1) } else { s }, seq!['/']) }
pub open spec fn picture(s: Seq<char>) -> Option<Picture> {
    let p = parts_of(s);
    if has_known_scheme(s) { Some(Picture::Url(s)) }
    else if p.len() == 1 { Some(Picture::File1(p[0])) }
    else if p.len() == 2 { Some(Picture::File2(p[0], p[1])) }
    else if p.len() == 3 { Some(Picture::File3(p[0], p[1], p[2])) }
    else { None }
}
pub open spec fn pictures(i: ImageSource, p: Picture) -> bool {
    match (i, p) {
        (ImageSource::Url(a), Picture::Url(x)) => a@ == x,
        (ImageSource::File1 { file }, Picture::File1(x)) => file@ == x,
        (ImageSource::File2 { page, file }, Picture::File2(x, y)) => page@ == x && file@ == y,
        (ImageSource::File3 { site, page, file }, Picture::File3(x, y, z)) => site@ == x && page@ == y && file@ == z,
        _ => false,
    }
}
impl<'t> ImageSource<'t> {
//@fn src/tree/image.rs @ `impl<'t> ImageSource<'t>` parse r
//@methods strip_prefix split
//@sub `source.x_strip_prefix('/').unwrap_or(source)` => `match source.x_strip_prefix('/') { Some(vf_s) => vf_s, None => source }`
//@sub `.collect()` => ``
//@macros
//@spec
    ensures match r { Some(i) => picture(source@).is_some() && pictures(i, picture(source@)->Some_0), None => picture(source@).is_none() },
//@end
}
//@fn src/parsing/rule/impls/block/blocks/image.rs parse_fn r
//@rename block_image
//@sub `&BLOCK_IMAGE` => `&BLOCK_IMAGE()`
//@sub `arguments.get("link").map(LinkLocation::parse)` => `match arguments.get("link") { Some(vf_l) => Some(LinkLocation::parse(vf_l)), None => None }`
//@macros
//@spec
    requires old(parser).called(the(BFun::Image), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> name_heads(old(parser), |n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>| imaged(name@, n, m, old(parser).settings.isolate_user_ids, r->Ok_0.item@[0])),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(name_head(&p0, source@, m0)); }
//@end
pub open spec fn imaged<'t>(name: Seq<char>, n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>, isolate: bool, e: Element<'t>) -> bool {
    match e {
        Element::Image { source, link, alignment, attributes } => {
            &&& picture(n).is_some() && pictures(source, picture(n)->Some_0)
            &&& match (link, arg(m, "link"@)) { (Some(l), Some(s)) => same(l, location(s)), (None, None) => true, _ => false }
            &&& match (alignment, floats_as(name)) { (Some(a), Some(f)) => a.align == f.0 && a.float == f.1, (None, None) => true, _ => false }
            &&& attributes@ == attributes_of(m.remove(lower("link"@)), isolate)
        },
        _ => false,
    }
}
pub open spec fn embeds<'t>(n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>, e: Embed<'t>) -> bool {
    match e {
        Embed::Youtube { video_id } => eq_nocase("youtube"@, n) && Some(video_id@) == arg(m, "video"@),
        Embed::Vimeo { video_id } => eq_nocase("vimeo"@, n) && Some(video_id@) == arg(m, "video"@),
        _ => false,
    }
}
pub enum EFun { Youtube, Vimeo }
impl Copy for EFun {}
impl Clone for EFun { fn clone(&self) -> Self { *self } }
//@fn src/parsing/rule/impls/block/blocks/embed.rs build_youtube r
//@sub `arguments.get("video").ok_or_else(|| $X)?` => `match arguments.get("video") { Some(vf_v) => vf_v, None => return Err($X) }`
//@spec
    ensures r.is_ok() ==> (match r->Ok_0 { Embed::Youtube { video_id } => Some(video_id@) == arg(old(arguments).inner@, "video"@), _ => false }),
//@end
//@fn src/parsing/rule/impls/block/blocks/embed.rs build_vimeo r
//@sub `arguments.get("video").ok_or_else(|| $X)?` => `match arguments.get("video") { Some(vf_v) => vf_v, None => return Err($X) }`
//@spec
    ensures r.is_ok() ==> (match r->Ok_0 { Embed::Vimeo { video_id } => Some(video_id@) == arg(old(arguments).inner@, "video"@), _ => false }),
//@end
//@fn src/parsing/rule/impls/block/blocks/embed.rs build_embed r
//@sub `const EMBED_BUILDERS: &[(&str, EmbedBuilderFn)] = &[("youtube", build_youtube), ("vimeo", build_vimeo)];` => `let vf_builders: [(&str, EFun); 2] = [("youtube", EFun::Youtube), ("vimeo", EFun::Vimeo)];`
//@sub `for &(embed_name, builder) in EMBED_BUILDERS {` => `for vf_p in vf_builders.iter() { let (embed_name, builder) = *vf_p;`
//@sub `builder(parser, arguments)` => `match builder { EFun::Youtube => build_youtube(parser, arguments), EFun::Vimeo => build_vimeo(parser, arguments) }`
//@methods eq_ignore_ascii_case
//@spec
    ensures r.is_ok() ==> embeds(name@, old(arguments).inner@, r->Ok_0),
//@loop 0 it
    invariant
        *old(arguments) == *arguments, it.seq().len() == 2, vf_builders@ == seq![("youtube", EFun::Youtube), ("vimeo", EFun::Vimeo)],
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vf_builders@[i],
//@in 0
    proof { assert(*vf_p == vf_builders@[it.index()]); }
//@end
//@fn src/parsing/rule/impls/block/blocks/embed.rs parse_fn r
//@rename block_embed
//@sub `&BLOCK_EMBED` => `&BLOCK_EMBED()`
//@macros
//@spec
    requires old(parser).called(the(BFun::Embed), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> name_heads(old(parser), |n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>| match r->Ok_0.item@[0] { Element::Embed(e) => embeds(n, m, e), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(name_head(&p0, name@, m0)); }
//@end
// The text between the block and its end.
pub open spec fn within_block<'r, 't>(p: &Parser<'r, 't>, d: Doc, s: Seq<char>, q: &Parser<'r, 't>) -> bool { body_text(p, d, s, q) }
pub open spec fn body_after<'r, 't>(o: &Parser<'r, 't>, p: &Parser<'r, 't>, d: Doc, s: Seq<char>, q: &Parser<'r, 't>) -> bool { p.read(o) && body_text(p, d, s, q) }
pub open spec fn body<'r, 't>(o: &Parser<'r, 't>, d: Doc, s: Seq<char>) -> bool { exists|p: Parser<'r, 't>, q: Parser<'r, 't>| #[trigger] body_after(o, &p, d, s, &q) }
// The body is such.
pub open spec fn bodied<'r, 't>(o: &Parser<'r, 't>, d: Doc, f: spec_fn(Seq<char>) -> bool) -> bool { exists|s: Seq<char>| #[trigger] body(o, d, s) && f(s) }
//@fn src/parsing/rule/impls/block/blocks/html.rs parse_fn r
//@rename block_html
//@sub `&BLOCK_HTML` => `&BLOCK_HTML()`
//@macros
//@spec
    requires old(parser).called(the(BFun::Html), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> final(parser).html_blocks@.len() == old(parser).html_blocks@.len() + 1 && final(parser).html_blocks@.drop_last() =~= old(parser).html_blocks@ && bodied(old(parser), the(BFun::Html), |s: Seq<char>| final(parser).html_blocks@.last()@ == s && match r->Ok_0.item@[0] { Element::Html { contents } => contents@ == s, _ => false }), r.is_err() ==> final(parser).html_blocks@ == old(parser).html_blocks@,
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `let html`
    let ghost p1 = *parser;
//@past 0 `get_body_text(&BLOCK_HTML())?;`
    proof { assert(body_after(&p0, &p1, the(BFun::Html), html@, &*parser)); assert(body(&p0, the(BFun::Html), html@)); }
//@end
pub struct MathName;
pub open spec fn trims<'t>(v: Option<Seq<char>>, r: Option<Cow<'t, str>>) -> bool { match (v, r) { (Some(s), Some(c)) => c@ == trim(s), (None, None) => true, _ => false } }
impl<'r, 't> Converts<'r, 't, Option<Cow<'t, str>>> for MathName {
    open spec fn gives(self, value: Option<Seq<char>>, r: Option<Cow<'t, str>>) -> bool { trims(value, r) }
//@fn src/parsing/rule/impls/block/blocks/math.rs parse_fn r
//@rename call
//@methods trim
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |_, value| { $CASES })?; $REST ok!(element)` => `$CASES`
//@sub `value.map(|s| $X)` => `(match value { Some(s) => Some($X), None => None })`
//@macros
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<Option<Cow<'t, str>>, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/math.rs parse_fn r
//@rename block_math
//@sub `&BLOCK_MATH` => `&BLOCK_MATH()`
//@sub `in_head, |_, value| { $CASES })?` => `in_head, MathName)?`
//@methods trim is_empty
//@sub `let latex_source = parser.get_body_text($B)?.x_trim();` => `let vf_b = parser.get_body_text($B)?; let latex_source = vf_b.x_trim();`
//@macros
//@spec
    requires old(parser).called(the(BFun::Math), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> bodied(old(parser), the(BFun::Math), |s: Seq<char>| match r->Ok_0.item@[0] { Element::Math { name: name1, latex_source } => value_head(old(parser), in_head, MathName, name1) && latex_source@ == trim(s) && trim(s).len() > 0, _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `let vf_b`
    let ghost p1 = *parser;
//@past 0 `get_body_text(&BLOCK_MATH())?;`
    proof { assert(body_after(&p0, &p1, the(BFun::Math), vf_b@, &*parser)); assert(body(&p0, the(BFun::Math), vf_b@)); }
//@end
#[verifier::external_body]
fn vf_cow_lower<'t>(c: &mut Cow<'t, str>) ensures final(c)@ == lower(old(c)@) { unimplemented!() }
#[verifier::external_body]
fn vf_cow_norm<'t>(c: &mut Cow<'t, str>) ensures final(c)@ == norm(old(c)@) { unimplemented!() }
pub open spec fn option_is<'t>(c: Option<Cow<'t, str>>, s: Option<Seq<char>>) -> bool { texted(c) == s }
pub open spec fn lowered(s: Option<Seq<char>>) -> Option<Seq<char>> { match s { Some(x) => Some(lower(x)), None => None } }
pub open spec fn normed(s: Option<Seq<char>>) -> Option<Seq<char>> { match s { Some(x) => Some(norm(x)), None => None } }
// What is kept of code, and what is shown of it.
pub open spec fn coded<'t>(m: Map<Seq<char>, Cow<'t, str>>, s: Seq<char>, b: CodeBlock<'t>, e: Element<'t>) -> bool {
    b.contents@ == s && texted(b.name) == normed(arg(m, "name"@)) && match e { Element::Code { contents, language } => contents@ == s && texted(language) == lowered(arg(m, "type"@)), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/code.rs parse_fn r
//@rename block_code
//@sub `&BLOCK_CODE` => `&BLOCK_CODE()`
//@sub `if let Some(ref mut language) = language` => `if let Some(language) = &mut language`
//@sub `if let Some(ref mut name) = name` => `if let Some(name) = &mut name`
//@sub `language.to_mut().make_ascii_lowercase()` => `vf_cow_lower(language)`
//@sub `normalize(name.to_mut())` => `vf_cow_norm(name)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Code), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> final(parser).code_blocks@.len() == old(parser).code_blocks@.len() + 1 && final(parser).code_blocks@.drop_last() =~= old(parser).code_blocks@ && bodied(old(parser), the(BFun::Code), |s: Seq<char>| heads(old(parser), in_head, |m: Map<Seq<char>, Cow<'t, str>>| coded(m, s, final(parser).code_blocks@.last(), r->Ok_0.item@[0]))), r.is_err() ==> final(parser).code_blocks@ == old(parser).code_blocks@,
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    proof { reveal_strlit("type"); reveal_strlit("name"); assert(lower("type"@)[0] == 't'); assert(lower("name"@)[0] == 'n'); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@at 0 `let code`
    let ghost p1 = *parser;
//@past 0 `get_body_text(&BLOCK_CODE())?;`
    proof {
        assert(body_after(&p0, &p1, the(BFun::Code), code@, &*parser)); assert(body(&p0, the(BFun::Code), code@));
        assert(texted(name) == normed(arg(m0, "name"@))); assert(texted(language) == lowered(arg(m0, "type"@)));
    }
//@at 0 `if added_result`
    let ghost p9 = *parser;
    proof { if added_result.is_ok() { assert(coded(m0, code@, p9.code_blocks@.last(), element)); } assert(added_result.is_ok() ==> heads(&p0, in_head, |m: Map<Seq<char>, Cow<'t, str>>| coded(m, code@, p9.code_blocks@.last(), element))); }
//@end
pub open spec fn line_off(e: Element) -> bool { e is LineBreak || e is LineBreaks }
pub open spec fn all_breaks(s: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> line_off(#[trigger] s[i]) }
pub open spec fn within_breaks(s: Seq<Element>, t: Seq<Element>, a: int, b: int) -> bool {
    0 <= a <= b <= s.len() && t == s.subrange(a, b) && all_breaks(s.take(a)) && all_breaks(s.skip(b)) && (t.len() > 0 ==> !line_off(t[0]) && !line_off(t.last()))
}
// Without the line breaks at both ends.
pub open spec fn unbroken(s: Seq<Element>, t: Seq<Element>) -> bool { exists|a: int, b: int| #[trigger] within_breaks(s, t, a, b) }
//@fn src/parsing/strip.rs strip_newlines
//@sub `while let Some(element) = elements.first() { $BODY }` => `loop { match elements.first() { Some(element) => { $BODY } None => { break; } } }`
//@sub `while let Some(element) = elements.last() { $BODY }` => `loop { match elements.last() { Some(element) => { $BODY } None => { break; } } }`
//@sub `elements.pop();` => `let vf_p = elements.pop();`
//@sig
pub fn strip_newlines(elements: &mut Vec<Element>)
//@spec
    ensures unbroken(old(elements)@, final(elements)@),
//@pre
    let ghost s = elements@;
    let ghost mut a: int = 0;
    let ghost mut b: int = s.len() as int;
    proof { assert(s.subrange(0, s.len() as int) =~= s); }
//@loop 0
    invariant
        old(elements)@ == s, 0 <= a <= s.len(), b == s.len(), elements@ == s.subrange(a, b), all_breaks(s.take(a)),
    ensures
        old(elements)@ == s, 0 <= a <= s.len(), b == s.len(), elements@ == s.subrange(a, b), all_breaks(s.take(a)), elements@.len() > 0 ==> !line_off(elements@[0]),
    decreases elements@.len(),
//@at 0 `elements.remove(0)`
    proof {
        assert(s.take(a + 1) =~= s.take(a).push(s[a]));
        assert(s.subrange(a, b).remove(0) =~= s.subrange(a + 1, b));
        a = a + 1;
    }
//@loop 1
    invariant
        old(elements)@ == s, 0 <= a <= b <= s.len(), elements@ == s.subrange(a, b), all_breaks(s.take(a)), all_breaks(s.skip(b)), elements@.len() > 0 ==> !line_off(elements@[0]),
    ensures
        old(elements)@ == s, within_breaks(s, elements@, a, b),
    decreases elements@.len(),
//@at 0 `let vf_p`
    proof {
        assert(s.skip(b - 1) =~= seq![s[b - 1]] + s.skip(b));
        assert(s.subrange(a, b).drop_last() =~= s.subrange(a, b - 1));
        b = b - 1;
    }
//@end
pub open spec fn not_broken(s: Seq<Element>) -> bool { s.len() > 0 ==> !line_off(s[0]) && !line_off(s.last()) }
//@fn src/parsing/rule/impls/block/blocks/span.rs parse_fn r
//@rename block_span
//@sub `&BLOCK_SPAN` => `&BLOCK_SPAN()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Span), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Span, r), r.is_ok() && flag_score ==> (match r->Ok_0.item@[0] { Element::Container(c) => not_broken(c.elements@), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/anchor.rs parse_fn r
//@rename block_anchor
//@sub `&BLOCK_ANCHOR` => `&BLOCK_ANCHOR()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Anchor), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> match r->Ok_0.item@[0] { Element::Anchor { elements, attributes, target } => headed(old(parser), in_head, attributes@) && no_partial(elements@) && (flag_score ==> not_broken(elements@)) && target == (if flag_star { Some(AnchorTarget::NewTab) } else { None }), _ => false },
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
