// C01, C06, C09, C11, C17: blocks which set something aside while they read what is in them.
//@import blocks2 cond
//@use strx unicase fmt

//@pin src/parsing/parser_wrap.rs `pub fn new(parser: &'p mut Parser<'r, 't>, flag: AcceptsPartial) -> Self { let original = parser.accepts_partial(); parser.set_accepts_partial(flag); ParserWrap { parser, original } }`
//@pin src/parsing/parser_wrap.rs `impl Drop for ParserWrap<'_, '_, '_> { fn drop(&mut self) { self.parser.set_accepts_partial(self.original); } }`
impl<'r, 't> Parser<'r, 't> {
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` page_info r
//@spec
    ensures *r == *self.page_info,
//@end
}
//@pin src/parsing/rule/impls/block/blocks/footnote.rs `fn new(parser: &'p mut Parser<'r, 't>) -> Self { parser.set_footnote_flag(true); ParserWrap { parser } }`
//@pin src/parsing/rule/impls/block/blocks/footnote.rs `impl Drop for ParserWrap<'_, '_, '_> { fn drop(&mut self) { self.parser.set_footnote_flag(false); } }`
// Not the items of a body which is left out: nothing of it is in the document.
pub open spec fn left_out<'r, 't>(o: &Parser<'r, 't>, f: &Parser<'r, 't>, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() && r->Ok_0.item@.len() == 0 && f.same_lists(o) && f.has_footnote_block == o.has_footnote_block
}
pub open spec fn relaxed(c: Seq<Wanted>) -> Seq<Wanted> { c.map_values(|w: Wanted| if w.ctype == ElementConditionType::Required { Wanted { ctype: ElementConditionType::Present, value: w.value } } else { w }) }
pub open spec fn tags_say<'r, 't>(o: &Parser<'r, 't>, c: Seq<Wanted>) -> bool { satisfied(c, vals(o.page_info.tags@)) }
pub open spec fn category_says<'r, 't>(o: &Parser<'r, 't>, c: Seq<Wanted>) -> bool { satisfied(c, seq![crate::category(o.page_info)]) }
pub struct TagSpec;
impl<'r, 't> Converts<'r, 't, Vec<ElementCondition<'t>>> for TagSpec {
    open spec fn gives(self, value: Option<Seq<char>>, r: Vec<ElementCondition<'t>>) -> bool { match value { Some(s) => meaning(r@) == list(s), None => false } }
//@fn src/parsing/rule/impls/block/blocks/iftags.rs parse_fn r
//@rename call
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |parser, spec| match spec { $CASES }$C)?; $REST ok!(paragraph_safe; elements, errors)` => `match value { $CASES }`
//@sub? `conditions.iter_mut().for_each(|condition| { $BODY });` => `let ghost c0 = conditions@; let mut vf_i: usize = 0; while vf_i < conditions.len() { let condition = &mut conditions[vf_i]; $BODY vf_i = vf_i + 1; }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<Vec<ElementCondition<'t>>, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/iftags.rs parse_fn r
//@rename iftags_inner
//@sub `vf_check(!flag_star); $PRE = $Q = parser.outer_partial(); let parser = &mut ParserWrap::new(parser, accepts_partial); $REST ok!(paragraph_safe; elements, errors)` => `$REST ok!(paragraph_safe; elements, errors)`
//@sub `&BLOCK_IFTAGS` => `&BLOCK_IFTAGS()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@sig
fn iftags_inner<'r, 't>(parser: &mut Parser<'r, 't>, conditions: Vec<ElementCondition<'t>>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> tags_say(old(parser), meaning(conditions@)) || left_out(old(parser), final(parser), r),
        r.is_ok() ==> taken(old(parser).accepts_partial, r->Ok_0.item@),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); more_refl(&p0); }
//@at 0 `parser.discard_shared_items`
    let ghost p1 = *parser;
    proof { assert(p1.ran(&p0)); assert(p1.more_lists(&p0)); }
//@past 0 `discard_shared_items(mark);`
    proof { from_refl(&p1); more_refl(&p0); assert(parser.at(&p1)); assert(parser.from(&p1)); assert(parser.same_lists(&p0)); from_trans(&p0, &p1, &*parser); }
//@end
//@fn src/parsing/rule/impls/block/blocks/iftags.rs parse_fn r
//@rename block_iftags
//@sub `&BLOCK_IFTAGS` => `&BLOCK_IFTAGS()`
//@sub `in_head, |parser, spec| match spec { $CASES }$C)?` => `in_head, TagSpec)?`
//@sub `let parser = &mut ParserWrap::new(parser, accepts_partial); $REST ok!(paragraph_safe; elements, errors)` => `let vf_original = parser.accepts_partial(); parser.set_accepts_partial(accepts_partial); let ghost p2 = *parser; proof { from_refl(&p2); more_refl(&p2); from_trans(&p0, &p2, &p2); assert(p2.ran(&p0)); } let vf_r = iftags_inner(parser, conditions); parser.set_accepts_partial(vf_original); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::Iftags), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| tags_say(old(parser), list(s)) || left_out(old(parser), final(parser), r)),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, TagSpec)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, TagSpec, conditions, v);
    proof { assert(value_head(&p0, in_head, TagSpec, conditions)); assert(converts(&p0, in_head, TagSpec, conditions, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
pub struct CategorySpec;
impl<'r, 't> Converts<'r, 't, Vec<ElementCondition<'t>>> for CategorySpec {
    open spec fn gives(self, value: Option<Seq<char>>, r: Vec<ElementCondition<'t>>) -> bool { match value { Some(s) => meaning(r@) == relaxed(list(s)), None => false } }
//@fn src/parsing/rule/impls/block/blocks/ifcategory.rs parse_fn r
//@rename call
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |parser, spec| match spec { $CASES }$C)?; $REST ok!(paragraph_safe; elements, errors)` => `match value { $CASES }`
//@sub? `conditions.iter_mut().for_each(|condition| { $BODY });` => `let ghost c0 = conditions@; let mut vf_i: usize = 0; while vf_i < conditions.len() { let condition = &mut conditions[vf_i]; $BODY vf_i = vf_i + 1; }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<Vec<ElementCondition<'t>>, ParseError>)
//@spec
//@loop 0
    invariant
        vf_i <= conditions@.len(), conditions@.len() == c0.len(), meaning(c0) == list(value->Some_0@),
        forall|j: int| 0 <= j < vf_i ==> meaning(conditions@)[j] == #[trigger] relaxed(meaning(c0))[j],
        forall|j: int| vf_i <= j < conditions@.len() ==> conditions@[j] == #[trigger] c0[j],
    decreases conditions@.len() - vf_i,
//@in 0
    let ghost n = vf_i as int;
    let ghost before = conditions@;
    proof { assert(conditions@[n] == c0[n]); }
//@tail 0
    proof {
        assert forall|j: int| 0 <= j < vf_i implies meaning(conditions@)[j] == #[trigger] relaxed(meaning(c0))[j] by { if j < n { assert(conditions@[j] == before[j]); assert(meaning(before)[j] == relaxed(meaning(c0))[j]); } }
    }
//@after 0
    proof { assert(meaning(conditions@) =~= relaxed(meaning(c0))); }
//@end
}
//@fn src/parsing/rule/impls/block/blocks/ifcategory.rs parse_fn r
//@rename ifcategory_inner
//@sub `vf_check(!flag_star); $PRE = $Q = parser.outer_partial(); let parser = &mut ParserWrap::new(parser, accepts_partial); $REST ok!(paragraph_safe; elements, errors)` => `$REST ok!(paragraph_safe; elements, errors)`
//@sub `&BLOCK_IFCATEGORY` => `&BLOCK_IFCATEGORY()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@sig
fn ifcategory_inner<'r, 't>(parser: &mut Parser<'r, 't>, conditions: Vec<ElementCondition<'t>>) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH,
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> category_says(old(parser), meaning(conditions@)) || left_out(old(parser), final(parser), r),
        r.is_ok() ==> taken(old(parser).accepts_partial, r->Ok_0.item@),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); more_refl(&p0); }
//@at 0 `parser.discard_shared_items`
    let ghost p1 = *parser;
    proof { assert(p1.ran(&p0)); assert(p1.more_lists(&p0)); }
//@past 0 `discard_shared_items(mark);`
    proof { from_refl(&p1); more_refl(&p0); assert(parser.at(&p1)); assert(parser.from(&p1)); assert(parser.same_lists(&p0)); from_trans(&p0, &p1, &*parser); }
//@end
//@fn src/parsing/rule/impls/block/blocks/ifcategory.rs parse_fn r
//@rename block_ifcategory
//@sub `&BLOCK_IFCATEGORY` => `&BLOCK_IFCATEGORY()`
//@sub `in_head, |parser, spec| match spec { $CASES }$C)?` => `in_head, CategorySpec)?`
//@sub `let parser = &mut ParserWrap::new(parser, accepts_partial); $REST ok!(paragraph_safe; elements, errors)` => `let vf_original = parser.accepts_partial(); parser.set_accepts_partial(accepts_partial); let ghost p2 = *parser; proof { from_refl(&p2); more_refl(&p2); from_trans(&p0, &p2, &p2); assert(p2.ran(&p0)); } let vf_r = ifcategory_inner(parser, conditions); parser.set_accepts_partial(vf_original); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::Ifcategory), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| category_says(old(parser), relaxed(list(s))) || left_out(old(parser), final(parser), r)),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, CategorySpec)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, CategorySpec, conditions, v);
    proof { assert(value_head(&p0, in_head, CategorySpec, conditions)); assert(converts(&p0, in_head, CategorySpec, conditions, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
//@fn src/tree/container.rs @ `impl<'t> From<Container<'t>> for Vec<Element<'t>>` from r
//@rename vf_elements_of
//@sig
pub fn vf_elements_of<'t>(container: Container<'t>) -> (r: Vec<Element<'t>>)
//@spec
    ensures r == container.elements,
//@end
// What a footnote says: what is in it, without the paragraph if there is one only.
pub open spec fn unwrapped<'t>(s: Seq<Element<'t>>) -> Seq<Element<'t>> {
    if s.len() == 1 { match s[0] { Element::Container(c) => if c.ctype == ContainerType::Paragraph { c.elements@ } else { s }, _ => s } } else { s }
}
pub open spec fn in_note<'t>(s: Seq<Element<'t>>, t: Seq<Element<'t>>) -> bool { in_paragraphs(s) && no_partial(s) && t == unwrapped(s) }
pub open spec fn noted<'t>(t: Seq<Element<'t>>) -> bool { exists|s: Seq<Element<'t>>| #[trigger] in_note(s, t) }
pub open spec fn notes<'r, 't>(f: &Parser<'r, 't>, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && r->Ok_0.item@[0] is Footnote && f.footnotes@.len() > 0 && noted(f.footnotes@.last()@)
}
//@fn src/parsing/rule/impls/block/blocks/footnote.rs parse_footnote_ref r
//@rename footnote_inner
//@sub `if parser.in_footnote() { $A } let parser = &mut ParserWrap::new(parser);` => ``
//@sub `&BLOCK_FOOTNOTE` => `&BLOCK_FOOTNOTE()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sub `match elements.pop().unwrap() { Element::Container(container) if $G => { $A } element => elements.push(element), };` => `match elements.pop().unwrap() { Element::Container(container) => { if $G { $A } else { elements.push(Element::Container(container)) } } element => elements.push(element), };`
//@sub `container.into()` => `vf_elements_of(container)`
//@macros
//@sig
fn footnote_inner<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).called(the(BFun::Footnote), name@, flag_star, flag_score), old(parser).in_footnote,
    ensures final(parser).ruled(old(parser), r), notes(final(parser), r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `if elements.len() == 1`
    let ghost s = elements@;
    proof { assert(in_paragraphs(s)); if s.len() == 1 { assert(s.drop_last() =~= Seq::<Element<'t>>::empty()); assert(s =~= seq![s[0]]); } }
//@at 0 `parser.push_footnote`
    let ghost p1 = *parser;
    proof { assert(elements@ =~= unwrapped(s)); assert(in_note(s, elements@)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/footnote.rs parse_footnote_ref r
//@rename block_footnote
//@sub `&BLOCK_FOOTNOTE` => `&BLOCK_FOOTNOTE()`
//@sub `let parser = &mut ParserWrap::new(parser); $REST ok!(Element::Footnote, errors)` => `parser.set_footnote_flag(true); let ghost p2 = *parser; proof { from_refl(&p2); more_refl(&p2); from_trans(&p0, &p2, &p2); assert(p2.ran(&p0)); } let vf_r = footnote_inner(parser, name, flag_star, flag_score, in_head); parser.set_footnote_flag(false); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::Footnote), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), notes(final(parser), r), r.is_ok() ==> !old(parser).in_footnote && !final(parser).in_footnote,
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
pub fn vf_paragraph(c: ContainerType) -> (r: bool) ensures r == (c == ContainerType::Paragraph) { match c { ContainerType::Paragraph => true, _ => false } }
#[verifier::external_body]
fn vf_attributes<'t>(a: &AttributeMap<'t>) -> (r: AttributeMap<'t>) ensures r@ == a@ { unimplemented!() }
// The same but for the attributes of the paragraphs.
pub open spec fn attributed<'t>(e: Element<'t>, f: Element<'t>, a: Map<Seq<char>, Seq<char>>) -> bool {
    match e {
        Element::Container(c) => if c.ctype == ContainerType::Paragraph { match f { Element::Container(d) => d.ctype == c.ctype && d.elements == c.elements && d.attributes@ == a, _ => false } } else { f == e },
        _ => f == e,
    }
}
pub open spec fn attributed_from<'t>(s: Seq<Element<'t>>, t: Seq<Element<'t>>, a: Map<Seq<char>, Seq<char>>) -> bool { t.len() == s.len() && in_paragraphs(s) && no_partial(s) && forall|i: int| 0 <= i < s.len() ==> attributed(#[trigger] s[i], t[i], a) }
pub open spec fn attributes_on<'t>(t: Seq<Element<'t>>, a: Map<Seq<char>, Seq<char>>) -> bool { exists|s: Seq<Element<'t>>| #[trigger] attributed_from(s, t, a) }
pub open spec fn headed_on<'r, 't>(o: &Parser<'r, 't>, more: bool, t: Seq<Element<'t>>) -> bool { exists|m: Map<Seq<char>, Cow<'t, str>>| #[trigger] head(o, more, m) && attributes_on(t, attributes_of(m, o.settings.isolate_user_ids)) }
//@fn src/parsing/rule/impls/block/blocks/paragraph.rs parse_fn r
//@rename block_paragraph
//@sub `&BLOCK_PARAGRAPH` => `&BLOCK_PARAGRAPH()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sub `ok!(element, errors)` => `{ let vf_safe = element.paragraph_safe(); Ok(ParseSuccess::new(element, errors, vf_safe)) }`
//@sub `for element in &mut elements { $BODY }` => `let mut vf_i: usize = 0; while vf_i < elements.len() { let element = &mut elements[vf_i]; $BODY vf_i = vf_i + 1; }`
//@sub `Element::Container(ref mut container) = element` => `Element::Container(container) = element`
//@sub `container.ctype() == ContainerType::Paragraph` => `vf_paragraph(container.ctype())`
//@sub `container.attributes_mut().clone_from(&attributes)` => `container.attributes = vf_attributes(&attributes)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Paragraph), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> headed_on(old(parser), in_head, r->Ok_0.item@),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@at 0 `let mut vf_i`
    let ghost s = elements@;
    proof { assert(in_paragraphs(s)); }
//@loop 0
    invariant
        vf_i <= elements@.len(), elements@.len() == s.len(), *old(parser) == p0, parser.ran(&p0), parser.went(&p0),
        forall|j: int| 0 <= j < vf_i ==> attributed(#[trigger] s[j], elements@[j], attributes@),
        forall|j: int| vf_i <= j < elements@.len() ==> elements@[j] == #[trigger] s[j],
    decreases elements@.len() - vf_i,
//@in 0
    let ghost n = vf_i as int;
    let ghost before = elements@;
    proof { assert(elements@[n] == s[n]); }
//@after 0
    proof { assert(attributed_from(s, elements@, attributes@)); assert forall|j: int| 0 <= j < elements@.len() implies !partial(#[trigger] elements@[j]) by { assert(attributed(s[j], elements@[j], attributes@)); assert(!partial(s[j])); } }
//@end
