// C28: which elements may be in a paragraph.
//@use payloads
//@use tree
// Phrasing content, as the HTML standard has it; an included page is what it was found to be.
pub open spec fn inline_container(c: ContainerType) -> bool {
    !(c is Div || c is Blockquote || c is Paragraph || c is Align || c is Header)
}
pub open spec fn inline(e: Element) -> bool {
    match e {
        Element::Container(c) => inline_container(c.ctype),
        Element::Include { paragraph_safe, .. } => paragraph_safe,
        Element::Text(_) | Element::Raw(_) | Element::Variable(_) | Element::Email(_) | Element::Anchor { .. } | Element::AnchorName(_)
            | Element::Link { .. } | Element::Image { .. } | Element::RadioButton { .. } | Element::CheckBox { .. } | Element::Footnote
            | Element::BibliographyCite { .. } | Element::User { .. } | Element::Date { .. } | Element::Color { .. } | Element::MathInline { .. }
            | Element::EquationReference(_) | Element::LineBreak | Element::LineBreaks(_) => true,
        // becomes an inline container
        Element::Partial(PartialElement::RubyText(_)) => true,
        _ => false,
    }
}
pub open spec fn all_inline(s: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> inline(#[trigger] s[i]) }
pub open spec fn partial(e: Element) -> bool { e is Partial }
pub open spec fn no_partial(s: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> !partial(#[trigger] s[i]) }
impl<'t> Elements<'t> {
    pub open spec fn view(&self) -> Seq<Element<'t>> {
        match self { Elements::Multiple(v) => v@, Elements::Single(e) => seq![*e], Elements::None => Seq::empty() }
    }
}
impl ContainerType {
//@fn src/tree/container.rs @ `impl ContainerType` paragraph_safe r
//@spec
    ensures r == inline_container(self),
//@end
}
impl<'t> Container<'t> {
//@fn src/tree/container.rs @ `impl<'t> Container<'t>` new r
//@spec
    ensures r.ctype == ctype, r.elements == elements, r.attributes == attributes,
//@end
//@fn src/tree/container.rs @ `impl<'t> Container<'t>` ctype r
//@spec
    ensures r == self.ctype,
//@end
//@fn src/tree/container.rs @ `impl<'t> Container<'t>` elements r
//@spec
    ensures r@ == self.elements@,
//@end
}
impl<'t> Element<'t> {
//@fn src/tree/element/object.rs @ `impl Element<'_>` paragraph_safe r
//@spec
    requires !partial(*self),
    ensures r == inline(*self),
//@end
}
impl<'t> Elements<'t> {
//@fn src/tree/element/collection.rs @ `impl Elements<'_>` is_empty r
//@spec
    ensures r == (self@.len() == 0),
//@end
//@fn src/tree/element/collection.rs @ `impl Elements<'_>` len r
//@spec
    ensures r == self@.len(),
//@end
//@fn src/tree/element/collection.rs @ `impl Elements<'_>` paragraph_safe r
//@sub `elements.iter().all(|element| $x)` => `{ let mut vf_all = true; for element in elements.iter() { if !($x) { vf_all = false; break; } } vf_all }`
//@spec
    requires no_partial(self@),
    ensures r == all_inline(self@),
//@loop 0 it
    invariant_except_break
        vf_all, forall|i: int| 0 <= i < it.index() ==> inline(#[trigger] elements@[i]),
    invariant
        it.seq().len() == elements@.len(), no_partial(elements@), *self == Elements::Multiple(*elements),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i],
    ensures vf_all == all_inline(elements@),
//@pre
    proof { match self { Elements::Single(e) => { assert(self@[0] == *e); } _ => {} } }
//@end
//@fn src/tree/element/collection.rs @ `impl<'t> From<Element<'t>> for Elements<'t>` from r
//@rename from_element
//@spec
    ensures r@ == seq![element], r == Elements::Single(element),
//@end
//@fn src/tree/element/collection.rs @ `impl<'t> From<Option<Element<'t>>> for Elements<'t>` from r
//@rename from_option
//@spec
    ensures r@ == match element { Some(e) => seq![e], None => Seq::<Element>::empty() },
//@end
//@fn src/tree/element/collection.rs @ `impl<'t> From<Vec<Element<'t>>> for Elements<'t>` from r
//@rename from_vec
//@spec
    ensures r@ == elements@,
//@end
}
