// C01, C09, C11, C25, C28: blocks which make a container of what is in them.
//@import blockhead
//@use cowtext
// The attributes made of the arguments: proved of from_arguments() and isolate_id() in unit attributes, where what they are is written down.
pub uninterp spec fn attributes_of<'t>(m: Map<Seq<char>, Cow<'t, str>>, isolate: bool) -> Map<Seq<char>, Seq<char>>;
//@pin src/parsing/rule/impls/block/arguments.rs `let mut map = AttributeMap::from_arguments(&self.inner); map.isolate_id(settings); map`
impl<'t> Arguments<'t> {
    #[verifier::external_body]
    pub fn to_attribute_map(&self, settings: &WikitextSettings) -> (r: AttributeMap<'t>) ensures r@ == attributes_of(self.inner@, settings.isolate_user_ids) { unimplemented!() }
}
// The attributes are those given in the head.
pub open spec fn headed<'r, 't>(o: &Parser<'r, 't>, more: bool, a: Map<Seq<char>, Seq<char>>) -> bool { exists|m: Map<Seq<char>, Cow<'t, str>>| #[trigger] head(o, more, m) && a == attributes_of(m, o.settings.isolate_user_ids) }
// One container of this type.
pub open spec fn makes<'r, 't>(o: &Parser<'r, 't>, more: bool, c: ContainerType, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] {
        Element::Container(x) => x.ctype == c && headed(o, more, x.attributes@) && no_partial(x.elements@),
        _ => false,
    }
}
pub open spec fn in_paragraphs(s: Seq<Element>) -> bool { exists|p: Seq<Piece>| #[trigger] all_show(s, p) && sound(p) }
pub open spec fn body_in_paragraphs<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> match r->Ok_0.item@[0] { Element::Container(x) => in_paragraphs(x.elements@), _ => false }
}
//@pin src/parsing/rule/impls/block/blocks/mod.rs `pub fn assert_block_name(block_rule: &BlockRule, actual_name: &str)`

// What is documented of each block.
pub open spec fn the(f: BFun) -> Doc {
    match f {
        BFun::AlignCenter => doc("block-align-center", seq!["="], false, false, true, Run::Block(BFun::AlignCenter)),
        BFun::AlignJustify => doc("block-align-justify", seq!["=="], false, false, true, Run::Block(BFun::AlignJustify)),
        BFun::AlignLeft => doc("block-align-left", seq!["<"], false, false, true, Run::Block(BFun::AlignLeft)),
        BFun::AlignRight => doc("block-align-right", seq![">"], false, false, true, Run::Block(BFun::AlignRight)),
        BFun::Anchor => doc("block-anchor", seq!["a", "anchor"], true, true, false, Run::Block(BFun::Anchor)),
        BFun::Bibcite => doc("block-bibcite", seq!["bibcite"], false, true, false, Run::Block(BFun::Bibcite)),
        BFun::Bibliography => doc("block-bibliography", seq!["bibliography"], false, false, true, Run::Block(BFun::Bibliography)),
        BFun::Blockquote => doc("block-blockquote", seq!["blockquote", "quote"], false, false, true, Run::Block(BFun::Blockquote)),
        BFun::Bold => doc("block-bold", seq!["b", "bold", "strong"], false, false, false, Run::Block(BFun::Bold)),
        BFun::Char => doc("block-char", seq!["char", "character"], false, false, false, Run::Block(BFun::Char)),
        BFun::Checkbox => doc("block-checkbox", seq!["checkbox"], true, false, false, Run::Block(BFun::Checkbox)),
        BFun::Code => doc("block-code", seq!["code"], false, false, true, Run::Block(BFun::Code)),
        BFun::Collapsible => doc("block-collapsible", seq!["collapsible"], false, false, true, Run::Block(BFun::Collapsible)),
        BFun::Date => doc("block-date", seq!["date"], false, false, false, Run::Block(BFun::Date)),
        BFun::Del => doc("block-del", seq!["del", "deletion"], false, false, false, Run::Block(BFun::Del)),
        BFun::Div => doc("block-div", seq!["div"], false, true, true, Run::Block(BFun::Div)),
        BFun::Embed => doc("block-embed", seq!["embed"], false, false, true, Run::Block(BFun::Embed)),
        BFun::EquationRef => doc("block-equation-ref", seq!["equation", "eref", "eqref"], false, false, false, Run::Block(BFun::EquationRef)),
        BFun::Footnote => doc("block-footnote", seq!["footnote"], false, false, false, Run::Block(BFun::Footnote)),
        BFun::FootnoteBlock => doc("block-footnote-block", seq!["footnoteblock"], false, false, true, Run::Block(BFun::FootnoteBlock)),
        BFun::Hidden => doc("block-hidden", seq!["hidden"], false, false, true, Run::Block(BFun::Hidden)),
        BFun::Html => doc("block-html", seq!["html"], false, false, true, Run::Block(BFun::Html)),
        BFun::Ifcategory => doc("block-ifcategory", seq!["ifcategory"], false, false, true, Run::Block(BFun::Ifcategory)),
        BFun::Iframe => doc("block-iframe", seq!["iframe"], false, false, true, Run::Block(BFun::Iframe)),
        BFun::Iftags => doc("block-iftags", seq!["iftags"], false, false, true, Run::Block(BFun::Iftags)),
        BFun::Image => doc("block-image", seq!["image", "=image", "<image", ">image", "f<image", "f>image"], false, false, false, Run::Block(BFun::Image)),
        BFun::IncludeElements => doc("block-include-elements", seq!["include-elements"], false, false, true, Run::Block(BFun::IncludeElements)),
        BFun::IncludeWikidot => doc("block-include", seq!["include"], false, false, true, Run::Block(BFun::IncludeWikidot)),
        BFun::Ins => doc("block-ins", seq!["ins", "insertion"], false, false, false, Run::Block(BFun::Ins)),
        BFun::Invisible => doc("block-invisible", seq!["invisible"], false, false, true, Run::Block(BFun::Invisible)),
        BFun::Italics => doc("block-italics", seq!["i", "italics", "em", "emphasis"], false, false, false, Run::Block(BFun::Italics)),
        BFun::Later => doc("block-later", seq!["later"], true, false, true, Run::Block(BFun::Later)),
        BFun::Li => doc("block-list-item", seq!["li"], false, true, true, Run::Block(BFun::Li)),
        BFun::Lines => doc("block-lines", seq!["lines", "newlines"], false, false, true, Run::Block(BFun::Lines)),
        BFun::Mark => doc("block-mark", seq!["mark", "highlight"], false, false, false, Run::Block(BFun::Mark)),
        BFun::Math => doc("block-math", seq!["math"], false, false, true, Run::Block(BFun::Math)),
        BFun::Module => doc("block-module", seq!["module", "module654"], false, false, true, Run::Block(BFun::Module)),
        BFun::Monospace => doc("block-monospace", seq!["tt", "mono", "monospace"], false, false, false, Run::Block(BFun::Monospace)),
        BFun::Ol => doc("block-list-ordered", seq!["ol"], false, true, true, Run::Block(BFun::Ol)),
        BFun::Paragraph => doc("block-paragraph", seq!["p", "paragraph"], false, false, true, Run::Block(BFun::Paragraph)),
        BFun::Radio => doc("block-radio", seq!["radio", "radio-button"], true, false, false, Run::Block(BFun::Radio)),
        BFun::Rb => doc("block-ruby-short", seq!["rb", "ruby2"], false, false, false, Run::Block(BFun::Rb)),
        BFun::Rt => doc("block-ruby-text", seq!["rt", "rubytext"], false, false, true, Run::Block(BFun::Rt)),
        BFun::Ruby => doc("block-ruby", seq!["ruby"], false, false, true, Run::Block(BFun::Ruby)),
        BFun::Size => doc("block-size", seq!["size"], false, false, false, Run::Block(BFun::Size)),
        BFun::Span => doc("block-span", seq!["span"], false, true, false, Run::Block(BFun::Span)),
        BFun::Strikethrough => doc("block-strikethrough", seq!["s", "strikethrough"], false, false, false, Run::Block(BFun::Strikethrough)),
        BFun::Subscript => doc("block-subscript", seq!["sub", "subscript"], false, false, false, Run::Block(BFun::Subscript)),
        BFun::Superscript => doc("block-superscript", seq!["sup", "super", "superscript"], false, false, false, Run::Block(BFun::Superscript)),
        BFun::Tab => doc("block-tab", seq!["tab"], false, false, true, Run::Block(BFun::Tab)),
        BFun::Table => doc("block-table", seq!["table"], false, false, true, Run::Block(BFun::Table)),
        BFun::TableCellHeader => doc("block-table-cell-header", seq!["hcell"], false, false, true, Run::Block(BFun::TableCellHeader)),
        BFun::TableCellRegular => doc("block-table-cell-regular", seq!["cell"], false, false, true, Run::Block(BFun::TableCellRegular)),
        BFun::TableOfContents => doc("block-toc", seq!["toc", "f<toc", "f>toc"], false, false, true, Run::Block(BFun::TableOfContents)),
        BFun::TableRow => doc("block-table-row", seq!["row"], false, false, true, Run::Block(BFun::TableRow)),
        BFun::Tabview => doc("block-tabview", seq!["tabview", "tabs"], false, false, true, Run::Block(BFun::Tabview)),
        BFun::Target => doc("block-target", seq!["target", "anchortarget"], false, false, true, Run::Block(BFun::Target)),
        BFun::Ul => doc("block-list-unordered", seq!["ul"], false, true, true, Run::Block(BFun::Ul)),
        BFun::Underline => doc("block-underline", seq!["u", "underline"], false, false, false, Run::Block(BFun::Underline)),
        BFun::User => doc("block-user", seq!["user"], true, false, false, Run::Block(BFun::User)),
    }
}
//@fn src/parsing/rule/impls/block/blocks/bold.rs parse_fn r
//@rename block_bold
//@sub `&BLOCK_BOLD` => `&BLOCK_BOLD()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Bold), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Bold, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/del.rs parse_fn r
//@rename block_del
//@sub `&BLOCK_DEL` => `&BLOCK_DEL()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Del), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Deletion, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/hidden.rs parse_fn r
//@rename block_hidden
//@sub `&BLOCK_HIDDEN` => `&BLOCK_HIDDEN()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Hidden), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Hidden, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/ins.rs parse_fn r
//@rename block_ins
//@sub `&BLOCK_INS` => `&BLOCK_INS()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Ins), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Insertion, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/invisible.rs parse_fn r
//@rename block_invisible
//@sub `&BLOCK_INVISIBLE` => `&BLOCK_INVISIBLE()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Invisible), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Invisible, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/italics.rs parse_fn r
//@rename block_italics
//@sub `&BLOCK_ITALICS` => `&BLOCK_ITALICS()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Italics), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Italics, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/mark.rs parse_fn r
//@rename block_mark
//@sub `&BLOCK_MARK` => `&BLOCK_MARK()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Mark), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Mark, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/monospace.rs parse_fn r
//@rename block_monospace
//@sub `&BLOCK_MONOSPACE` => `&BLOCK_MONOSPACE()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Monospace), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Monospace, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/strikethrough.rs parse_fn r
//@rename block_strikethrough
//@sub `&BLOCK_STRIKETHROUGH` => `&BLOCK_STRIKETHROUGH()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Strikethrough), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Strikethrough, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/subscript.rs parse_fn r
//@rename block_subscript
//@sub `&BLOCK_SUBSCRIPT` => `&BLOCK_SUBSCRIPT()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Subscript), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Subscript, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/superscript.rs parse_fn r
//@rename block_superscript
//@sub `&BLOCK_SUPERSCRIPT` => `&BLOCK_SUPERSCRIPT()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Superscript), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Superscript, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/underline.rs parse_fn r
//@rename block_underline
//@sub `&BLOCK_UNDERLINE` => `&BLOCK_UNDERLINE()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Underline), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Underline, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/div.rs parse_fn r
//@rename block_div
//@sub `&BLOCK_DIV` => `&BLOCK_DIV()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Div), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Div, r), !flag_score ==> body_in_paragraphs(r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/blockquote.rs parse_fn r
//@rename block_blockquote
//@sub `&BLOCK_BLOCKQUOTE` => `&BLOCK_BLOCKQUOTE()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Blockquote), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), makes(old(parser), in_head, ContainerType::Blockquote, r), body_in_paragraphs(r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
