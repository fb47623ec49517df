// C01, C09, C11, C18, C25, C28: text with ruby text above it.
//@import blocks3 deflist
//@use strx unicase fmt likes
//@pin src/parsing/parser_wrap.rs `pub fn new(parser: &'p mut Parser<'r, 't>, flag: AcceptsPartial) -> Self { let original = parser.accepts_partial(); parser.set_accepts_partial(flag); ParserWrap { parser, original } }`
//@pin src/parsing/parser_wrap.rs `impl Drop for ParserWrap<'_, '_, '_> { fn drop(&mut self) { self.parser.set_accepts_partial(self.original); } }`
// A half-finished piece of text to go above becomes a container.
pub open spec fn above<'t>(e: Element<'t>, f: Element<'t>) -> bool {
    match e {
        Element::Partial(PartialElement::RubyText(x)) => match f { Element::Container(c) => c.ctype is RubyText && c.elements == x.elements && c.attributes == x.attributes, _ => false },
        _ => f == e,
    }
}
pub open spec fn all_above<'t>(s: Seq<Element<'t>>, t: Seq<Element<'t>>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> above(#[trigger] s[i], t[i]) }
pub open spec fn above_within<'t>(s: Seq<Element<'t>>, t: Seq<Element<'t>>, u: Seq<Element<'t>>) -> bool { taken(AcceptsPartial::Ruby, s) && all_above(s, t) && trimmed(t, u) }
pub open spec fn finished<'t>(u: Seq<Element<'t>>) -> bool { exists|s: Seq<Element<'t>>, t: Seq<Element<'t>>| #[trigger] above_within(s, t, u) }
pub open spec fn rubied<'r, 't>(o: &Parser<'r, 't>, more: bool, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] { Element::Container(c) => c.ctype is Ruby && finished(c.elements@) && no_partial(c.elements@) && headed(o, more, c.attributes@), _ => false }
}
pub fn vf_take_ruby<'t>(x: &mut RubyText<'t>) -> (r: RubyText<'t>) ensures r == *old(x) { std::mem::replace(x, RubyText { elements: Vec::new(), attributes: AttributeMap::new() }) }
//@fn src/parsing/rule/impls/block/blocks/ruby.rs parse_block r
//@rename ruby_inner
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::Ruby);` => ``
//@sub `&BLOCK_RUBY` => `&BLOCK_RUBY()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sub `for element in &mut elements { $BODY } cfg_if!` => `let mut vf_i: usize = 0; while vf_i < elements.len() { let element = &mut elements[vf_i]; $BODY vf_i = vf_i + 1; } cfg_if!`
//@sub `let (attributes, elements) = match element { Element::Partial(PartialElement::RubyText(ref mut ruby_text)) => { let RubyText { attributes, elements, } = mem::take(ruby_text); (attributes, elements) } _ => continue, }; *element = $NEW;` => `if let Element::Partial(PartialElement::RubyText(ruby_text)) = element { let RubyText { attributes, elements, } = vf_take_ruby(ruby_text); *element = $NEW; }`
//@sub `cfg_if! { if { for element in &elements { if let Element::Partial(_) = element { vf_unreachable(); } } } }` => `let mut vf_j: usize = 0; while vf_j < elements.len() { if let Element::Partial(_) = &elements[vf_j] { vf_unreachable(); } vf_j = vf_j + 1; }`
//@macros
//@sig
fn ruby_inner<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is Ruby, answers(the(BFun::Ruby), name@), !flag_star, !flag_score,
    ensures final(parser).ruled(old(parser), r), rubied(old(parser), in_head, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `let mut vf_i`
    let ghost s = elements@;
    proof { assert(taken(AcceptsPartial::Ruby, s)); }
//@loop 0
    invariant
        vf_i <= elements@.len(), elements@.len() == s.len(), taken(AcceptsPartial::Ruby, s),
        forall|j: int| 0 <= j < vf_i ==> above(#[trigger] s[j], elements@[j]),
        forall|j: int| vf_i <= j < elements@.len() ==> elements@[j] == #[trigger] s[j],
    decreases elements@.len() - vf_i,
//@in 0
    let ghost n = vf_i as int;
    proof { assert(elements@[n] == s[n]); }
//@tail 0
    proof { assert(above(s[n], elements@[n])); }
//@after 0
    let ghost t = elements@;
    proof { assert(all_above(s, t)); assert forall|j: int| 0 <= j < t.len() implies !partial(#[trigger] t[j]) by { assert(above(s[j], t[j])); } }
//@loop 1
    invariant vf_j <= elements@.len(), elements@ == t, no_partial(t),
    decreases elements@.len() - vf_j,
//@in 1
    proof { assert(!partial(t[vf_j as int])); }
//@past 0 `strip_whitespace(&mut elements);`
    proof { assert(above_within(s, t, elements@)); let (a, b) = choose|a: int, b: int| within(t, elements@, a, b); assert forall|j: int| 0 <= j < elements@.len() implies !partial(#[trigger] elements@[j]) by { assert(elements@[j] == t[a + j]); assert(!partial(t[a + j])); } }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/ruby.rs parse_block r
//@rename block_ruby
//@sub `&BLOCK_RUBY` => `&BLOCK_RUBY()`
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::Ruby); $REST ok!(paragraph_safe; element, errors)` => `let vf_original = parser.accepts_partial(); parser.set_accepts_partial(AcceptsPartial::Ruby); let ghost p2 = *parser; proof { like_ran(&p2, &p0, AcceptsPartial::Ruby); } let vf_r = ruby_inner(parser, name, flag_star, flag_score, in_head); parser.set_accepts_partial(vf_original); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::Ruby), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), rubied(old(parser), in_head, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `parser.set_accepts_partial(vf_original)`
    proof { if r_ok(vf_r) { let e = vf_r->Ok_0.item@[0]; same_headed(&p0, &p2, AcceptsPartial::Ruby, in_head, e->Container_0.attributes@); } }
//@end
pub open spec fn ruby_text<'r, 't>(o: &Parser<'r, 't>, more: bool, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] { Element::Partial(PartialElement::RubyText(x)) => no_partial(x.elements@) && headed(o, more, x.attributes@), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/ruby.rs parse_text r
//@rename block_rt
//@sub `&BLOCK_RT` => `&BLOCK_RT()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Rt), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), ruby_text(old(parser), in_head, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@at 0 `strip_whitespace`
    let ghost t = elements@;
//@past 0 `strip_whitespace(&mut elements);`
    proof { let (a, b) = choose|a: int, b: int| within(t, elements@, a, b); assert forall|j: int| 0 <= j < elements@.len() implies !partial(#[trigger] elements@[j]) by { assert(elements@[j] == t[a + j]); assert(!partial(t[a + j])); } }
//@end
pub struct RubyParts;
pub open spec fn two_parts(s: Seq<char>, base: Seq<char>, ruby: Seq<char>) -> bool { split(s, "|"@).len() == 2 && base == trim(split(s, "|"@)[0]) && ruby == trim(split(s, "|"@)[1]) }
impl<'r, 't> Converts<'r, 't, (&'t str, &'t str)> for RubyParts {
    open spec fn gives(self, value: Option<Seq<char>>, r: (&'t str, &'t str)) -> bool { match value { Some(s) => two_parts(s, r.0@, r.1@), None => false } }
//@fn src/parsing/rule/impls/block/blocks/ruby.rs parse_shortcut r
//@rename call
//@methods trim split
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |parser, value| match value { $CASES })?; $REST ok!(ruby)` => `match value { $CASES }`
//@sub `value.x_split('|').collect::<Vec<_>>()` => `{ proof { reveal_strlit("|"); } value.x_split("|") }`
//@sub `match parts.as_slice() { [base, ruby] => Ok($O), _ => $E, }` => `if parts.len() == 2 { let base = parts[0]; let ruby = parts[1]; Ok($O) } else { $E }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<(&'t str, &'t str), ParseError>)
//@spec
//@end
}
pub open spec fn says_text<'t>(e: Element<'t>, s: Seq<char>) -> bool { match e { Element::Text(t) => t@ == s, _ => false } }
pub open spec fn over<'t>(e: Element<'t>, s: Seq<char>) -> bool {
    match e { Element::Container(c) => c.ctype is RubyText && c.attributes@ == Map::<Seq<char>, Seq<char>>::empty() && c.elements@.len() == 1 && says_text(c.elements@[0], s), _ => false }
}
pub open spec fn short_ruby<'t>(e: Element<'t>, base: Seq<char>, ruby: Seq<char>) -> bool {
    match e { Element::Container(c) => c.ctype is Ruby && c.attributes@ == Map::<Seq<char>, Seq<char>>::empty() && c.elements@.len() == 2 && says_text(c.elements@[0], base) && over(c.elements@[1], ruby), _ => false }
}
pub open spec fn ruby_of<'t>(e: Element<'t>, s: Seq<char>) -> bool { exists|b: Seq<char>, r: Seq<char>| #[trigger] two_parts(s, b, r) && short_ruby(e, b, r) }
//@fn src/parsing/rule/impls/block/blocks/ruby.rs parse_shortcut r
//@rename block_rb
//@sub `&BLOCK_RB` => `&BLOCK_RB()`
//@sub `in_head, |parser, value| match value { $CASES })?` => `in_head, RubyParts)?`
//@sub `let (base_text, ruby_text) = parser.get_head_value($A)?;` => `let vf_p = parser.get_head_value($A)?; let (base_text, ruby_text) = vf_p;`
//@macros
//@spec
    requires old(parser).called(the(BFun::Rb), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> r->Ok_0.item@.len() == 1 && told(old(parser), in_head, |s: Seq<char>| ruby_of(r->Ok_0.item@[0], s)),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `let (base_text`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, RubyParts, vf_p, v);
    proof { assert(value_head(&p0, in_head, RubyParts, vf_p)); assert(converts(&p0, in_head, RubyParts, vf_p, v)); assert(argued(&p0, in_head, v->Some_0)); assert(two_parts(v->Some_0, vf_p.0@, vf_p.1@)); }
//@end
