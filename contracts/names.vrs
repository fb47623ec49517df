// C25: names, markers and levels mean what is documented.
//@import blockmap floats
//@use strx unicase fmt
//@use heading
//@type src/tree/tag.rs HtmlTag
//@end
//@type src/layout.rs Layout
//@attr #[derive(Copy, Clone)]
//@end
//@type src/layout.rs LayoutParseError
//@end
impl HeadingLevel {
//@fn src/tree/heading.rs @ `impl HeadingLevel` value r
//@spec
    ensures r == number(self), 1 <= r <= 6,
//@end
//@fn src/tree/heading.rs @ `impl HeadingLevel` prefix r
//@spec
    ensures r@ == match self { HeadingLevel::One => "+"@, HeadingLevel::Two => "++"@, HeadingLevel::Three => "+++"@, HeadingLevel::Four => "++++"@, HeadingLevel::Five => "+++++"@, HeadingLevel::Six => "++++++"@ },
//@end
//@fn src/tree/heading.rs @ `impl HeadingLevel` prefix_with_space r
//@spec
    ensures r@ == match self { HeadingLevel::One => "+ "@, HeadingLevel::Two => "++ "@, HeadingLevel::Three => "+++ "@, HeadingLevel::Four => "++++ "@, HeadingLevel::Five => "+++++ "@, HeadingLevel::Six => "++++++ "@ },
//@end
//@fn src/tree/heading.rs @ `impl HeadingLevel` html_tag r
//@spec
    ensures r@ == match self { HeadingLevel::One => "h1"@, HeadingLevel::Two => "h2"@, HeadingLevel::Three => "h3"@, HeadingLevel::Four => "h4"@, HeadingLevel::Five => "h5"@, HeadingLevel::Six => "h6"@ },
//@end
//@fn src/tree/heading.rs @ `impl TryFrom<u8> for HeadingLevel` try_from r
//@sub `Result<Self, Self::Error>` => `Result<HeadingLevel, ()>`
//@rename from_u8
//@spec
    ensures r == if 1 <= value <= 6 { Ok::<HeadingLevel, ()>(level(value as int)) } else { Err::<HeadingLevel, ()>(()) },
//@end
}
impl Heading {
//@fn src/tree/heading.rs @ `impl Heading` html_tag r
//@sub `format!("toc{}", indexer.next())` => `{ let mut vf_o = vf_new(); vf_o.x_lit("toc"); vf_o.x_show(&indexer.next()); vf_o }`
//@sig
fn html_tag(self, indexer: &mut Indexer) -> (r: HtmlTag)
//@spec
    requires old(indexer)@ < usize::MAX,
    ensures
        self.has_toc ==> r is TagAndId && r->TagAndId_id@ == "toc"@ + dec(old(indexer)@) && final(indexer)@ == old(indexer)@ + 1,
        !self.has_toc ==> r is Tag && final(indexer)@ == old(indexer)@,
        tag_of(r) == match self.level { HeadingLevel::One => "h1"@, HeadingLevel::Two => "h2"@, HeadingLevel::Three => "h3"@, HeadingLevel::Four => "h4"@, HeadingLevel::Five => "h5"@, HeadingLevel::Six => "h6"@ },
//@end
}
// NextIndex<TableOfContentsIndex>, see unit counters
#[verifier::external_body]
pub struct Indexer { x: u8 }
impl Indexer {
    pub uninterp spec fn view(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: usize) requires old(self)@ < usize::MAX, ensures r == old(self)@, final(self)@ == old(self)@ + 1 { unimplemented!() }
}
pub open spec fn tag_of(t: HtmlTag) -> Seq<char> { match t { HtmlTag::Tag(tag) => tag@, HtmlTag::TagAndClass { tag, .. } => tag@, HtmlTag::TagAndId { tag, .. } => tag@ } }
pub open spec fn class_of(t: HtmlTag) -> Seq<char> { match t { HtmlTag::TagAndClass { class, .. } => class@, _ => seq![] } }
impl HtmlTag {
//@fn src/tree/tag.rs @ `impl HtmlTag` new r
//@spec
    ensures r == HtmlTag::Tag(tag),
//@end
//@fn src/tree/tag.rs @ `impl HtmlTag` with_class r
//@spec
    ensures r == (HtmlTag::TagAndClass { tag, class }),
//@end
//@fn src/tree/tag.rs @ `impl HtmlTag` with_id r
//@spec
    ensures r == (HtmlTag::TagAndId { tag, id }),
//@end
//@fn src/tree/tag.rs @ `impl HtmlTag` tag r
//@spec
    ensures r@ == tag_of(*self),
//@end
}
pub open spec fn element_tag(c: ContainerType) -> Seq<char> {
    match c {
        ContainerType::Bold => "strong"@, ContainerType::Italics => "em"@, ContainerType::Underline => "u"@, ContainerType::Superscript => "sup"@, ContainerType::Subscript => "sub"@,
        ContainerType::Strikethrough => "s"@, ContainerType::Monospace => "code"@, ContainerType::Span => "span"@, ContainerType::Div => "div"@, ContainerType::Mark => "mark"@,
        ContainerType::Blockquote => "blockquote"@, ContainerType::Insertion => "ins"@, ContainerType::Deletion => "del"@, ContainerType::Hidden => "span"@, ContainerType::Invisible => "span"@,
        ContainerType::Size => "span"@, ContainerType::Ruby => "ruby"@, ContainerType::RubyText => "rt"@, ContainerType::Paragraph => "p"@, ContainerType::Align(a) => "div"@,
        ContainerType::Header(h) => match h.level { HeadingLevel::One => "h1"@, HeadingLevel::Two => "h2"@, HeadingLevel::Three => "h3"@, HeadingLevel::Four => "h4"@, HeadingLevel::Five => "h5"@, HeadingLevel::Six => "h6"@ },
    }
}
pub open spec fn element_class(c: ContainerType) -> Seq<char> {
    match c {
        ContainerType::Monospace => "wj-monospace"@, ContainerType::Hidden => "wj-hidden"@, ContainerType::Invisible => "wj-invisible"@, ContainerType::Align(a) => align_class(a), _ => seq![],
    }
}
pub open spec fn align_class(a: Alignment) -> Seq<char> { match a { Alignment::Left => "wj-align-left"@, Alignment::Right => "wj-align-right"@, Alignment::Center => "wj-align-center"@, Alignment::Justify => "wj-align-justify"@ } }
impl ContainerType {
//@fn src/tree/container.rs @ `impl ContainerType` html_tag r
//@sig
fn html_tag(self, indexer: &mut Indexer) -> (r: HtmlTag)
//@spec
    requires old(indexer)@ < usize::MAX,
    ensures
        tag_of(r) == element_tag(self), class_of(r) == element_class(self),
        match self {
            ContainerType::Header(h) if h.has_toc => r is TagAndId && r->TagAndId_id@ == "toc"@ + dec(old(indexer)@) && final(indexer)@ == old(indexer)@ + 1,
            _ => !(r is TagAndId) && final(indexer)@ == old(indexer)@,
        },
//@end
}
impl Alignment {
//@fn src/tree/align.rs @ `impl Alignment` html_class r
//@spec
    ensures r@ == align_class(self),
//@end
}
impl FloatAlignment {
//@fn src/tree/align.rs @ `impl FloatAlignment` html_class r
//@spec
    ensures r@ == if self.float { match self.align { Alignment::Left => "wj-float-left"@, Alignment::Right => "wj-float-right"@, Alignment::Center => "wj-float-center"@, Alignment::Justify => "wj-float-justify"@ } } else { align_class(self.align) },
//@end
}
pub open spec fn target(s: Seq<char>) -> Option<AnchorTarget> {
    if eq_nocase(s, "blank"@) || eq_nocase(s, "_blank"@) { Some(AnchorTarget::NewTab) } else if eq_nocase(s, "parent"@) || eq_nocase(s, "_parent"@) { Some(AnchorTarget::Parent) }
    else if eq_nocase(s, "top"@) || eq_nocase(s, "_top"@) { Some(AnchorTarget::Top) } else if eq_nocase(s, "self"@) || eq_nocase(s, "_self"@) { Some(AnchorTarget::Same) } else { None }
}
impl AnchorTarget {
//@fn src/tree/anchor.rs @ `impl AnchorTarget` html_attr r
//@spec
    ensures r@ == match self { AnchorTarget::NewTab => "_blank"@, AnchorTarget::Parent => "_parent"@, AnchorTarget::Top => "_top"@, AnchorTarget::Same => "_self"@ },
//@end
//@fn src/tree/anchor.rs @ `impl<'a> TryFrom<&'a str> for AnchorTarget` try_from r
//@sub `const ANCHOR_TARGET_VALUES: [(&str, &str, AnchorTarget); 4] = [ $X ];` => `let ANCHOR_TARGET_VALUES: Vec<(&'static str, &'static str, AnchorTarget)> = vec![ $X ];`
//@sub `for (value1, value2, target) in &ANCHOR_TARGET_VALUES {` => `for vf_x in ANCHOR_TARGET_VALUES.iter() { let (value1, value2, target) = vf_x;`
//@methods eq_ignore_ascii_case
//@sig
fn try_from(value: &str) -> (r: Result<AnchorTarget, ()>)
//@spec
    ensures match r { Ok(t) => target(value@) == Some(t), Err(_) => target(value@).is_none() },
//@loop 0 it
    invariant
        it.seq().len() == 4,
        *it.seq()[0] == ("blank", "_blank", AnchorTarget::NewTab), *it.seq()[1] == ("parent", "_parent", AnchorTarget::Parent), *it.seq()[2] == ("top", "_top", AnchorTarget::Top), *it.seq()[3] == ("self", "_self", AnchorTarget::Same),
        it.index() > 0 ==> !eq_nocase(value@, "blank"@) && !eq_nocase(value@, "_blank"@),
        it.index() > 1 ==> !eq_nocase(value@, "parent"@) && !eq_nocase(value@, "_parent"@),
        it.index() > 2 ==> !eq_nocase(value@, "top"@) && !eq_nocase(value@, "_top"@),
        it.index() > 3 ==> !eq_nocase(value@, "self"@) && !eq_nocase(value@, "_self"@),
//@end
}
impl ClearFloat {
//@fn src/tree/clear_float.rs @ `impl ClearFloat` html_class r
//@spec
    ensures r@ == match self { ClearFloat::Left => "wj-clear-float-left"@, ClearFloat::Right => "wj-clear-float-right"@, ClearFloat::Both => "wj-clear-float-both"@ },
//@end
}
impl ListType {
//@fn src/tree/list.rs @ `impl ListType` html_tag r
//@spec
    ensures r@ == match self { ListType::Numbered => "ol"@, _ => "ul"@ },
//@end
}
pub open spec fn link_name(l: LinkType) -> Seq<char> { match l { LinkType::Direct => "direct"@, LinkType::Page => "page"@, LinkType::Interwiki => "interwiki"@, LinkType::Anchor => "anchor"@, LinkType::TableOfContents => "table-of-contents"@ } }
impl LinkType {
//@fn src/tree/link.rs @ `impl LinkType` name r
//@spec
    ensures r@ == link_name(self),
//@end
//@fn src/tree/link.rs @ `impl<'a> TryFrom<&'a str> for LinkType` try_from r
//@sig
fn try_from(value: &str) -> (r: Result<LinkType, &str>)
//@spec
    ensures match r { Ok(l) => value@ == link_name(l), Err(e) => e@ == value@ && forall|l: LinkType| value@ != #[trigger] link_name(l) },
//@pre
    broadcast use str_ext;
//@end
}
// What is written is read back as the same.
pub fn link_type_round_trip(l: LinkType) {
    proof {
        reveal_strlit("direct"); reveal_strlit("page"); reveal_strlit("interwiki"); reveal_strlit("anchor"); reveal_strlit("table-of-contents");
        assert("direct"@[0] == 'd' && "direct"@.len() == 6); assert("anchor"@[0] == 'a' && "anchor"@.len() == 6); assert("page"@.len() == 4); assert("interwiki"@.len() == 9); assert("table-of-contents"@.len() == 17);
    }
    let r = LinkType::try_from(l.name());
    proof { if r.is_ok() { match (l, r->Ok_0) { (LinkType::Direct, LinkType::Anchor) => {}, (LinkType::Anchor, LinkType::Direct) => {}, _ => {} } } else { assert(link_name(l) == link_name(l)); } }
    assert(r.is_ok());
    assert(link_name(r->Ok_0) == link_name(l)); assert(link_name(l).len() == link_name(r->Ok_0).len() && link_name(l)[0] == link_name(r->Ok_0)[0]); assert(r->Ok_0 == l);
}
impl Layout {
//@fn src/layout.rs @ `impl Layout` value r
//@spec
    ensures r@ == match self { Layout::Wikidot => "wikidot"@, Layout::Wikijump => "wikijump"@ },
//@end
//@fn src/layout.rs @ `impl Layout` legacy r
//@spec
    ensures r == (self is Wikidot),
//@end
//@fn src/layout.rs @ `impl FromStr for Layout` from_str r
//@sub `Result<Self, LayoutParseError>` => `Result<Layout, LayoutParseError>`
//@methods eq_ignore_ascii_case
//@spec
    ensures match r { Ok(Layout::Wikidot) => eq_nocase(s@, "wikidot"@), Ok(Layout::Wikijump) => eq_nocase(s@, "wikijump"@), Err(_) => !eq_nocase(s@, "wikidot"@) && !eq_nocase(s@, "wikijump"@) },
//@end
}
// Karma levels.
//@type src/data/karma.rs KarmaLevel
//@attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
pub open spec fn karma(k: KarmaLevel) -> int { match k { KarmaLevel::Zero => 0, KarmaLevel::One => 1, KarmaLevel::Two => 2, KarmaLevel::Three => 3, KarmaLevel::Four => 4, KarmaLevel::Five => 5 } }
impl KarmaLevel {
//@fn src/data/karma.rs @ `impl From<KarmaLevel> for u8` from r
//@rename to_u8
//@spec
    ensures r == karma(level),
//@end
//@fn src/data/karma.rs @ `impl TryFrom<u8> for KarmaLevel` try_from r
//@rename from_u8
//@spec
    ensures match r { Ok(k) => karma(k) == value, Err(e) => e == value && value > 5 },
//@end
//@fn src/data/karma.rs @ `impl KarmaLevel` new r
//@sub `KarmaLevel::try_from(value).ok()` => `match KarmaLevel::from_u8(value) { Ok(vf_k) => Some(vf_k), Err(vf_e) => None }`
//@spec
    ensures match r { Some(k) => karma(k) == value, None => value > 5 },
//@end
//@fn src/data/karma.rs @ `impl KarmaLevel` value r
//@sub `self.into()` => `KarmaLevel::to_u8(self)`
//@spec
    ensures r == karma(self),
//@end
}
