// C25: the names of blocks and modules, and what they are names of.
//@use strx unicase
// The functions a block or module may have: pointers to them are shown as names.
#[derive(Copy, Clone)]
pub enum BFun { AlignCenter, AlignJustify, AlignLeft, AlignRight, Anchor, Bibcite, Bibliography, Blockquote, Bold, Char, Checkbox, Code, Collapsible, Date, Del, Div, Embed, EquationRef, Footnote, FootnoteBlock, Hidden, Html, Ifcategory, Iframe, Iftags, Image, IncludeElements, IncludeWikidot, Ins, Invisible, Italics, Later, Li, Lines, Mark, Math, Module, Monospace, Ol, Paragraph, Radio, Rb, Rt, Ruby, Size, Span, Strikethrough, Subscript, Superscript, Tab, Table, TableCellHeader, TableCellRegular, TableOfContents, TableRow, Tabview, Target, Ul, Underline, User }
#[derive(Copy, Clone)]
pub enum MFun { Backlinks, Categories, Css, Join, PageTree, Rate }
//@type src/parsing/rule/impls/block/mod.rs BlockRule
//@sub `accepts_names: &'static [&'static str]` => `accepts_names: Vec<&'static str>`
//@sub `parse_fn: BlockParseFn` => `parse_fn: BFun`
//@end
//@type src/parsing/rule/impls/block/blocks/module/mod.rs ModuleRule
//@sub `accepts_names: &'static [&'static str]` => `accepts_names: Vec<&'static str>`
//@sub `parse_fn: ModuleParseFn` => `parse_fn: MFun`
//@end
// A documented block: its rule, its names, whether it may have a star, a score, and line ends around it.
pub struct Doc { pub rule: &'static str, pub names: Seq<&'static str>, pub star: bool, pub score: bool, pub newlines: bool, pub run: Run }
pub enum Run { Block(BFun), Module(MFun) }
pub open spec fn doc(rule: &'static str, names: Seq<&'static str>, star: bool, score: bool, newlines: bool, run: Run) -> Doc { Doc { rule, names, star, score, newlines, run } }
pub open spec fn documented() -> Seq<Doc> {
    seq![
        doc("block-align-center", seq!["="], false, false, true, Run::Block(BFun::AlignCenter)),
        doc("block-align-justify", seq!["=="], false, false, true, Run::Block(BFun::AlignJustify)),
        doc("block-align-left", seq!["<"], false, false, true, Run::Block(BFun::AlignLeft)),
        doc("block-align-right", seq![">"], false, false, true, Run::Block(BFun::AlignRight)),
        doc("block-anchor", seq!["a", "anchor"], true, true, false, Run::Block(BFun::Anchor)),
        doc("block-bibcite", seq!["bibcite"], false, true, false, Run::Block(BFun::Bibcite)),
        doc("block-bibliography", seq!["bibliography"], false, false, true, Run::Block(BFun::Bibliography)),
        doc("block-blockquote", seq!["blockquote", "quote"], false, false, true, Run::Block(BFun::Blockquote)),
        doc("block-bold", seq!["b", "bold", "strong"], false, false, false, Run::Block(BFun::Bold)),
        doc("block-char", seq!["char", "character"], false, false, false, Run::Block(BFun::Char)),
        doc("block-checkbox", seq!["checkbox"], true, false, false, Run::Block(BFun::Checkbox)),
        doc("block-code", seq!["code"], false, false, true, Run::Block(BFun::Code)),
        doc("block-collapsible", seq!["collapsible"], false, false, true, Run::Block(BFun::Collapsible)),
        doc("block-date", seq!["date"], false, false, false, Run::Block(BFun::Date)),
        doc("block-del", seq!["del", "deletion"], false, false, false, Run::Block(BFun::Del)),
        doc("block-div", seq!["div"], false, true, true, Run::Block(BFun::Div)),
        doc("block-embed", seq!["embed"], false, false, true, Run::Block(BFun::Embed)),
        doc("block-equation-ref", seq!["equation", "eref", "eqref"], false, false, false, Run::Block(BFun::EquationRef)),
        doc("block-footnote", seq!["footnote"], false, false, false, Run::Block(BFun::Footnote)),
        doc("block-footnote-block", seq!["footnoteblock"], false, false, true, Run::Block(BFun::FootnoteBlock)),
        doc("block-hidden", seq!["hidden"], false, false, true, Run::Block(BFun::Hidden)),
        doc("block-html", seq!["html"], false, false, true, Run::Block(BFun::Html)),
        doc("block-ifcategory", seq!["ifcategory"], false, false, true, Run::Block(BFun::Ifcategory)),
        doc("block-iframe", seq!["iframe"], false, false, true, Run::Block(BFun::Iframe)),
        doc("block-iftags", seq!["iftags"], false, false, true, Run::Block(BFun::Iftags)),
        doc("block-image", seq!["image", "=image", "<image", ">image", "f<image", "f>image"], false, false, false, Run::Block(BFun::Image)),
        doc("block-include-elements", seq!["include-elements"], false, false, true, Run::Block(BFun::IncludeElements)),
        doc("block-include", seq!["include"], false, false, true, Run::Block(BFun::IncludeWikidot)),
        doc("block-ins", seq!["ins", "insertion"], false, false, false, Run::Block(BFun::Ins)),
        doc("block-invisible", seq!["invisible"], false, false, true, Run::Block(BFun::Invisible)),
        doc("block-italics", seq!["i", "italics", "em", "emphasis"], false, false, false, Run::Block(BFun::Italics)),
        doc("block-later", seq!["later"], true, false, true, Run::Block(BFun::Later)),
        doc("block-list-item", seq!["li"], false, true, true, Run::Block(BFun::Li)),
        doc("block-lines", seq!["lines", "newlines"], false, false, true, Run::Block(BFun::Lines)),
        doc("block-mark", seq!["mark", "highlight"], false, false, false, Run::Block(BFun::Mark)),
        doc("block-math", seq!["math"], false, false, true, Run::Block(BFun::Math)),
        doc("block-module", seq!["module", "module654"], false, false, true, Run::Block(BFun::Module)),
        doc("block-monospace", seq!["tt", "mono", "monospace"], false, false, false, Run::Block(BFun::Monospace)),
        doc("block-list-ordered", seq!["ol"], false, true, true, Run::Block(BFun::Ol)),
        doc("block-paragraph", seq!["p", "paragraph"], false, false, true, Run::Block(BFun::Paragraph)),
        doc("block-radio", seq!["radio", "radio-button"], true, false, false, Run::Block(BFun::Radio)),
        doc("block-ruby-short", seq!["rb", "ruby2"], false, false, false, Run::Block(BFun::Rb)),
        doc("block-ruby-text", seq!["rt", "rubytext"], false, false, true, Run::Block(BFun::Rt)),
        doc("block-ruby", seq!["ruby"], false, false, true, Run::Block(BFun::Ruby)),
        doc("block-size", seq!["size"], false, false, false, Run::Block(BFun::Size)),
        doc("block-span", seq!["span"], false, true, false, Run::Block(BFun::Span)),
        doc("block-strikethrough", seq!["s", "strikethrough"], false, false, false, Run::Block(BFun::Strikethrough)),
        doc("block-subscript", seq!["sub", "subscript"], false, false, false, Run::Block(BFun::Subscript)),
        doc("block-superscript", seq!["sup", "super", "superscript"], false, false, false, Run::Block(BFun::Superscript)),
        doc("block-tab", seq!["tab"], false, false, true, Run::Block(BFun::Tab)),
        doc("block-table", seq!["table"], false, false, true, Run::Block(BFun::Table)),
        doc("block-table-cell-header", seq!["hcell"], false, false, true, Run::Block(BFun::TableCellHeader)),
        doc("block-table-cell-regular", seq!["cell"], false, false, true, Run::Block(BFun::TableCellRegular)),
        doc("block-toc", seq!["toc", "f<toc", "f>toc"], false, false, true, Run::Block(BFun::TableOfContents)),
        doc("block-table-row", seq!["row"], false, false, true, Run::Block(BFun::TableRow)),
        doc("block-tabview", seq!["tabview", "tabs"], false, false, true, Run::Block(BFun::Tabview)),
        doc("block-target", seq!["target", "anchortarget"], false, false, true, Run::Block(BFun::Target)),
        doc("block-list-unordered", seq!["ul"], false, true, true, Run::Block(BFun::Ul)),
        doc("block-underline", seq!["u", "underline"], false, false, false, Run::Block(BFun::Underline)),
        doc("block-user", seq!["user"], true, false, false, Run::Block(BFun::User)),
    ]
}
pub open spec fn documented_modules() -> Seq<Doc> {
    seq![
        doc("module-backlinks", seq!["Backlinks"], false, false, false, Run::Module(MFun::Backlinks)),
        doc("module-categories", seq!["Categories"], false, false, false, Run::Module(MFun::Categories)),
        doc("module-css", seq!["CSS"], false, false, false, Run::Module(MFun::Css)),
        doc("module-join", seq!["Join"], false, false, false, Run::Module(MFun::Join)),
        doc("module-page-tree", seq!["PageTree"], false, false, false, Run::Module(MFun::PageTree)),
        doc("module-rate", seq!["Rate"], false, false, false, Run::Module(MFun::Rate)),
    ]
}
impl BlockRule { pub open spec fn view(&self) -> Doc { Doc { rule: self.name, names: self.accepts_names@, star: self.accepts_star, score: self.accepts_score, newlines: self.accepts_newlines, run: Run::Block(self.parse_fn) } } }
impl ModuleRule { pub open spec fn view(&self) -> Doc { Doc { rule: self.name, names: self.accepts_names@, star: false, score: false, newlines: false, run: Run::Module(self.parse_fn) } } }
//@pin src/parsing/rule/impls/block/blocks/align.rs `const $block_const: BlockRule = BlockRule { name: $block_name, accepts_names: &[$symbol], accepts_star: false, accepts_score: false, accepts_newlines: true, parse_fn, };`
//@pin src/parsing/rule/impls/block/blocks/align_center.rs `make_align_block!(BLOCK_ALIGN_CENTER, "block-align-center", "=", Center);`
pub fn BLOCK_ALIGN_CENTER() -> (r: BlockRule) ensures r@ == doc("block-align-center", seq!["="], false, false, true, Run::Block(BFun::AlignCenter)) { let r = BlockRule { name: "block-align-center", accepts_names: vec![ "=" ], accepts_star: false, accepts_score: false, accepts_newlines: true, parse_fn: BFun::AlignCenter }; assert(r.accepts_names@ == seq!["="]); r }
//@pin src/parsing/rule/impls/block/blocks/align_justify.rs `make_align_block!(BLOCK_ALIGN_JUSTIFY, "block-align-justify", "==", Justify);`
pub fn BLOCK_ALIGN_JUSTIFY() -> (r: BlockRule) ensures r@ == doc("block-align-justify", seq!["=="], false, false, true, Run::Block(BFun::AlignJustify)) { let r = BlockRule { name: "block-align-justify", accepts_names: vec![ "==" ], accepts_star: false, accepts_score: false, accepts_newlines: true, parse_fn: BFun::AlignJustify }; assert(r.accepts_names@ == seq!["=="]); r }
//@pin src/parsing/rule/impls/block/blocks/align_left.rs `make_align_block!(BLOCK_ALIGN_LEFT, "block-align-left", "<", Left);`
pub fn BLOCK_ALIGN_LEFT() -> (r: BlockRule) ensures r@ == doc("block-align-left", seq!["<"], false, false, true, Run::Block(BFun::AlignLeft)) { let r = BlockRule { name: "block-align-left", accepts_names: vec![ "<" ], accepts_star: false, accepts_score: false, accepts_newlines: true, parse_fn: BFun::AlignLeft }; assert(r.accepts_names@ == seq!["<"]); r }
//@pin src/parsing/rule/impls/block/blocks/align_right.rs `make_align_block!(BLOCK_ALIGN_RIGHT, "block-align-right", ">", Right);`
pub fn BLOCK_ALIGN_RIGHT() -> (r: BlockRule) ensures r@ == doc("block-align-right", seq![">"], false, false, true, Run::Block(BFun::AlignRight)) { let r = BlockRule { name: "block-align-right", accepts_names: vec![ ">" ], accepts_star: false, accepts_score: false, accepts_newlines: true, parse_fn: BFun::AlignRight }; assert(r.accepts_names@ == seq![">"]); r }
//@type src/parsing/rule/impls/block/blocks/anchor.rs BLOCK_ANCHOR
//@sub `const BLOCK_ANCHOR: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_ANCHOR() -> (r: BlockRule) ensures r@ == doc("block-anchor", seq!["a", "anchor"], true, true, false, Run::Block(BFun::Anchor)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Anchor }; assert(r.accepts_names@ == seq!["a", "anchor"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/bibcite.rs BLOCK_BIBCITE
//@sub `const BLOCK_BIBCITE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_BIBCITE() -> (r: BlockRule) ensures r@ == doc("block-bibcite", seq!["bibcite"], false, true, false, Run::Block(BFun::Bibcite)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Bibcite }; assert(r.accepts_names@ == seq!["bibcite"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/bibliography.rs BLOCK_BIBLIOGRAPHY
//@sub `const BLOCK_BIBLIOGRAPHY: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_BIBLIOGRAPHY() -> (r: BlockRule) ensures r@ == doc("block-bibliography", seq!["bibliography"], false, false, true, Run::Block(BFun::Bibliography)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Bibliography }; assert(r.accepts_names@ == seq!["bibliography"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/blockquote.rs BLOCK_BLOCKQUOTE
//@sub `const BLOCK_BLOCKQUOTE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_BLOCKQUOTE() -> (r: BlockRule) ensures r@ == doc("block-blockquote", seq!["blockquote", "quote"], false, false, true, Run::Block(BFun::Blockquote)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Blockquote }; assert(r.accepts_names@ == seq!["blockquote", "quote"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/bold.rs BLOCK_BOLD
//@sub `const BLOCK_BOLD: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_BOLD() -> (r: BlockRule) ensures r@ == doc("block-bold", seq!["b", "bold", "strong"], false, false, false, Run::Block(BFun::Bold)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Bold }; assert(r.accepts_names@ == seq!["b", "bold", "strong"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/char.rs BLOCK_CHAR
//@sub `const BLOCK_CHAR: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_CHAR() -> (r: BlockRule) ensures r@ == doc("block-char", seq!["char", "character"], false, false, false, Run::Block(BFun::Char)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Char }; assert(r.accepts_names@ == seq!["char", "character"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/checkbox.rs BLOCK_CHECKBOX
//@sub `const BLOCK_CHECKBOX: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_CHECKBOX() -> (r: BlockRule) ensures r@ == doc("block-checkbox", seq!["checkbox"], true, false, false, Run::Block(BFun::Checkbox)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Checkbox }; assert(r.accepts_names@ == seq!["checkbox"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/code.rs BLOCK_CODE
//@sub `const BLOCK_CODE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_CODE() -> (r: BlockRule) ensures r@ == doc("block-code", seq!["code"], false, false, true, Run::Block(BFun::Code)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Code }; assert(r.accepts_names@ == seq!["code"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/collapsible.rs BLOCK_COLLAPSIBLE
//@sub `const BLOCK_COLLAPSIBLE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_COLLAPSIBLE() -> (r: BlockRule) ensures r@ == doc("block-collapsible", seq!["collapsible"], false, false, true, Run::Block(BFun::Collapsible)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Collapsible }; assert(r.accepts_names@ == seq!["collapsible"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/date.rs BLOCK_DATE
//@sub `const BLOCK_DATE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_DATE() -> (r: BlockRule) ensures r@ == doc("block-date", seq!["date"], false, false, false, Run::Block(BFun::Date)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Date }; assert(r.accepts_names@ == seq!["date"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/del.rs BLOCK_DEL
//@sub `const BLOCK_DEL: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_DEL() -> (r: BlockRule) ensures r@ == doc("block-del", seq!["del", "deletion"], false, false, false, Run::Block(BFun::Del)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Del }; assert(r.accepts_names@ == seq!["del", "deletion"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/div.rs BLOCK_DIV
//@sub `const BLOCK_DIV: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_DIV() -> (r: BlockRule) ensures r@ == doc("block-div", seq!["div"], false, true, true, Run::Block(BFun::Div)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Div }; assert(r.accepts_names@ == seq!["div"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/embed.rs BLOCK_EMBED
//@sub `const BLOCK_EMBED: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_EMBED() -> (r: BlockRule) ensures r@ == doc("block-embed", seq!["embed"], false, false, true, Run::Block(BFun::Embed)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Embed }; assert(r.accepts_names@ == seq!["embed"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/equation_ref.rs BLOCK_EQUATION_REF
//@sub `const BLOCK_EQUATION_REF: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_EQUATION_REF() -> (r: BlockRule) ensures r@ == doc("block-equation-ref", seq!["equation", "eref", "eqref"], false, false, false, Run::Block(BFun::EquationRef)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::EquationRef }; assert(r.accepts_names@ == seq!["equation", "eref", "eqref"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/footnote.rs BLOCK_FOOTNOTE
//@sub `const BLOCK_FOOTNOTE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_footnote_ref, };` => `fn BLOCK_FOOTNOTE() -> (r: BlockRule) ensures r@ == doc("block-footnote", seq!["footnote"], false, false, false, Run::Block(BFun::Footnote)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Footnote }; assert(r.accepts_names@ == seq!["footnote"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/footnote.rs BLOCK_FOOTNOTE_BLOCK
//@sub `const BLOCK_FOOTNOTE_BLOCK: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_footnote_block, };` => `fn BLOCK_FOOTNOTE_BLOCK() -> (r: BlockRule) ensures r@ == doc("block-footnote-block", seq!["footnoteblock"], false, false, true, Run::Block(BFun::FootnoteBlock)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::FootnoteBlock }; assert(r.accepts_names@ == seq!["footnoteblock"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/hidden.rs BLOCK_HIDDEN
//@sub `const BLOCK_HIDDEN: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_HIDDEN() -> (r: BlockRule) ensures r@ == doc("block-hidden", seq!["hidden"], false, false, true, Run::Block(BFun::Hidden)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Hidden }; assert(r.accepts_names@ == seq!["hidden"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/html.rs BLOCK_HTML
//@sub `const BLOCK_HTML: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_HTML() -> (r: BlockRule) ensures r@ == doc("block-html", seq!["html"], false, false, true, Run::Block(BFun::Html)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Html }; assert(r.accepts_names@ == seq!["html"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/ifcategory.rs BLOCK_IFCATEGORY
//@sub `const BLOCK_IFCATEGORY: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_IFCATEGORY() -> (r: BlockRule) ensures r@ == doc("block-ifcategory", seq!["ifcategory"], false, false, true, Run::Block(BFun::Ifcategory)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Ifcategory }; assert(r.accepts_names@ == seq!["ifcategory"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/iframe.rs BLOCK_IFRAME
//@sub `const BLOCK_IFRAME: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_IFRAME() -> (r: BlockRule) ensures r@ == doc("block-iframe", seq!["iframe"], false, false, true, Run::Block(BFun::Iframe)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Iframe }; assert(r.accepts_names@ == seq!["iframe"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/iftags.rs BLOCK_IFTAGS
//@sub `const BLOCK_IFTAGS: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_IFTAGS() -> (r: BlockRule) ensures r@ == doc("block-iftags", seq!["iftags"], false, false, true, Run::Block(BFun::Iftags)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Iftags }; assert(r.accepts_names@ == seq!["iftags"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/image.rs BLOCK_IMAGE
//@sub `const BLOCK_IMAGE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_IMAGE() -> (r: BlockRule) ensures r@ == doc("block-image", seq!["image", "=image", "<image", ">image", "f<image", "f>image"], false, false, false, Run::Block(BFun::Image)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Image }; assert(r.accepts_names@ == seq!["image", "=image", "<image", ">image", "f<image", "f>image"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/include_elements.rs BLOCK_INCLUDE_ELEMENTS
//@sub `const BLOCK_INCLUDE_ELEMENTS: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_INCLUDE_ELEMENTS() -> (r: BlockRule) ensures r@ == doc("block-include-elements", seq!["include-elements"], false, false, true, Run::Block(BFun::IncludeElements)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::IncludeElements }; assert(r.accepts_names@ == seq!["include-elements"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/include_wikidot.rs BLOCK_INCLUDE_WIKIDOT
//@sub `const BLOCK_INCLUDE_WIKIDOT: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_INCLUDE_WIKIDOT() -> (r: BlockRule) ensures r@ == doc("block-include", seq!["include"], false, false, true, Run::Block(BFun::IncludeWikidot)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::IncludeWikidot }; assert(r.accepts_names@ == seq!["include"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/ins.rs BLOCK_INS
//@sub `const BLOCK_INS: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_INS() -> (r: BlockRule) ensures r@ == doc("block-ins", seq!["ins", "insertion"], false, false, false, Run::Block(BFun::Ins)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Ins }; assert(r.accepts_names@ == seq!["ins", "insertion"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/invisible.rs BLOCK_INVISIBLE
//@sub `const BLOCK_INVISIBLE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_INVISIBLE() -> (r: BlockRule) ensures r@ == doc("block-invisible", seq!["invisible"], false, false, true, Run::Block(BFun::Invisible)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Invisible }; assert(r.accepts_names@ == seq!["invisible"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/italics.rs BLOCK_ITALICS
//@sub `const BLOCK_ITALICS: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_ITALICS() -> (r: BlockRule) ensures r@ == doc("block-italics", seq!["i", "italics", "em", "emphasis"], false, false, false, Run::Block(BFun::Italics)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Italics }; assert(r.accepts_names@ == seq!["i", "italics", "em", "emphasis"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/later.rs BLOCK_LATER
//@sub `const BLOCK_LATER: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_LATER() -> (r: BlockRule) ensures r@ == doc("block-later", seq!["later"], true, false, true, Run::Block(BFun::Later)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Later }; assert(r.accepts_names@ == seq!["later"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/list.rs BLOCK_LI
//@sub `const BLOCK_LI: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_list_item, };` => `fn BLOCK_LI() -> (r: BlockRule) ensures r@ == doc("block-list-item", seq!["li"], false, true, true, Run::Block(BFun::Li)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Li }; assert(r.accepts_names@ == seq!["li"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/lines.rs BLOCK_LINES
//@sub `const BLOCK_LINES: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_LINES() -> (r: BlockRule) ensures r@ == doc("block-lines", seq!["lines", "newlines"], false, false, true, Run::Block(BFun::Lines)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Lines }; assert(r.accepts_names@ == seq!["lines", "newlines"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/mark.rs BLOCK_MARK
//@sub `const BLOCK_MARK: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_MARK() -> (r: BlockRule) ensures r@ == doc("block-mark", seq!["mark", "highlight"], false, false, false, Run::Block(BFun::Mark)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Mark }; assert(r.accepts_names@ == seq!["mark", "highlight"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/math.rs BLOCK_MATH
//@sub `const BLOCK_MATH: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_MATH() -> (r: BlockRule) ensures r@ == doc("block-math", seq!["math"], false, false, true, Run::Block(BFun::Math)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Math }; assert(r.accepts_names@ == seq!["math"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/module/rule.rs BLOCK_MODULE
//@sub `const BLOCK_MODULE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_MODULE() -> (r: BlockRule) ensures r@ == doc("block-module", seq!["module", "module654"], false, false, true, Run::Block(BFun::Module)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Module }; assert(r.accepts_names@ == seq!["module", "module654"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/monospace.rs BLOCK_MONOSPACE
//@sub `const BLOCK_MONOSPACE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_MONOSPACE() -> (r: BlockRule) ensures r@ == doc("block-monospace", seq!["tt", "mono", "monospace"], false, false, false, Run::Block(BFun::Monospace)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Monospace }; assert(r.accepts_names@ == seq!["tt", "mono", "monospace"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/list.rs BLOCK_OL
//@sub `const BLOCK_OL: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_ordered_block, };` => `fn BLOCK_OL() -> (r: BlockRule) ensures r@ == doc("block-list-ordered", seq!["ol"], false, true, true, Run::Block(BFun::Ol)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Ol }; assert(r.accepts_names@ == seq!["ol"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/paragraph.rs BLOCK_PARAGRAPH
//@sub `const BLOCK_PARAGRAPH: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_PARAGRAPH() -> (r: BlockRule) ensures r@ == doc("block-paragraph", seq!["p", "paragraph"], false, false, true, Run::Block(BFun::Paragraph)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Paragraph }; assert(r.accepts_names@ == seq!["p", "paragraph"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/radio.rs BLOCK_RADIO
//@sub `const BLOCK_RADIO: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_RADIO() -> (r: BlockRule) ensures r@ == doc("block-radio", seq!["radio", "radio-button"], true, false, false, Run::Block(BFun::Radio)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Radio }; assert(r.accepts_names@ == seq!["radio", "radio-button"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/ruby.rs BLOCK_RB
//@sub `const BLOCK_RB: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_shortcut, };` => `fn BLOCK_RB() -> (r: BlockRule) ensures r@ == doc("block-ruby-short", seq!["rb", "ruby2"], false, false, false, Run::Block(BFun::Rb)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Rb }; assert(r.accepts_names@ == seq!["rb", "ruby2"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/ruby.rs BLOCK_RT
//@sub `const BLOCK_RT: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_text, };` => `fn BLOCK_RT() -> (r: BlockRule) ensures r@ == doc("block-ruby-text", seq!["rt", "rubytext"], false, false, true, Run::Block(BFun::Rt)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Rt }; assert(r.accepts_names@ == seq!["rt", "rubytext"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/ruby.rs BLOCK_RUBY
//@sub `const BLOCK_RUBY: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_block, };` => `fn BLOCK_RUBY() -> (r: BlockRule) ensures r@ == doc("block-ruby", seq!["ruby"], false, false, true, Run::Block(BFun::Ruby)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Ruby }; assert(r.accepts_names@ == seq!["ruby"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/size.rs BLOCK_SIZE
//@sub `const BLOCK_SIZE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_SIZE() -> (r: BlockRule) ensures r@ == doc("block-size", seq!["size"], false, false, false, Run::Block(BFun::Size)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Size }; assert(r.accepts_names@ == seq!["size"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/span.rs BLOCK_SPAN
//@sub `const BLOCK_SPAN: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_SPAN() -> (r: BlockRule) ensures r@ == doc("block-span", seq!["span"], false, true, false, Run::Block(BFun::Span)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Span }; assert(r.accepts_names@ == seq!["span"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/strikethrough.rs BLOCK_STRIKETHROUGH
//@sub `const BLOCK_STRIKETHROUGH: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_STRIKETHROUGH() -> (r: BlockRule) ensures r@ == doc("block-strikethrough", seq!["s", "strikethrough"], false, false, false, Run::Block(BFun::Strikethrough)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Strikethrough }; assert(r.accepts_names@ == seq!["s", "strikethrough"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/subscript.rs BLOCK_SUBSCRIPT
//@sub `const BLOCK_SUBSCRIPT: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_SUBSCRIPT() -> (r: BlockRule) ensures r@ == doc("block-subscript", seq!["sub", "subscript"], false, false, false, Run::Block(BFun::Subscript)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Subscript }; assert(r.accepts_names@ == seq!["sub", "subscript"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/superscript.rs BLOCK_SUPERSCRIPT
//@sub `const BLOCK_SUPERSCRIPT: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_SUPERSCRIPT() -> (r: BlockRule) ensures r@ == doc("block-superscript", seq!["sup", "super", "superscript"], false, false, false, Run::Block(BFun::Superscript)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Superscript }; assert(r.accepts_names@ == seq!["sup", "super", "superscript"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/tabs.rs BLOCK_TAB
//@sub `const BLOCK_TAB: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_tab, };` => `fn BLOCK_TAB() -> (r: BlockRule) ensures r@ == doc("block-tab", seq!["tab"], false, false, true, Run::Block(BFun::Tab)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Tab }; assert(r.accepts_names@ == seq!["tab"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/table.rs BLOCK_TABLE
//@sub `const BLOCK_TABLE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_table, };` => `fn BLOCK_TABLE() -> (r: BlockRule) ensures r@ == doc("block-table", seq!["table"], false, false, true, Run::Block(BFun::Table)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Table }; assert(r.accepts_names@ == seq!["table"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/table.rs BLOCK_TABLE_CELL_HEADER
//@sub `const BLOCK_TABLE_CELL_HEADER: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_cell_header, };` => `fn BLOCK_TABLE_CELL_HEADER() -> (r: BlockRule) ensures r@ == doc("block-table-cell-header", seq!["hcell"], false, false, true, Run::Block(BFun::TableCellHeader)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::TableCellHeader }; assert(r.accepts_names@ == seq!["hcell"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/table.rs BLOCK_TABLE_CELL_REGULAR
//@sub `const BLOCK_TABLE_CELL_REGULAR: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_cell_regular, };` => `fn BLOCK_TABLE_CELL_REGULAR() -> (r: BlockRule) ensures r@ == doc("block-table-cell-regular", seq!["cell"], false, false, true, Run::Block(BFun::TableCellRegular)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::TableCellRegular }; assert(r.accepts_names@ == seq!["cell"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/toc.rs BLOCK_TABLE_OF_CONTENTS
//@sub `const BLOCK_TABLE_OF_CONTENTS: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_TABLE_OF_CONTENTS() -> (r: BlockRule) ensures r@ == doc("block-toc", seq!["toc", "f<toc", "f>toc"], false, false, true, Run::Block(BFun::TableOfContents)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::TableOfContents }; assert(r.accepts_names@ == seq!["toc", "f<toc", "f>toc"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/table.rs BLOCK_TABLE_ROW
//@sub `const BLOCK_TABLE_ROW: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_row, };` => `fn BLOCK_TABLE_ROW() -> (r: BlockRule) ensures r@ == doc("block-table-row", seq!["row"], false, false, true, Run::Block(BFun::TableRow)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::TableRow }; assert(r.accepts_names@ == seq!["row"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/tabs.rs BLOCK_TABVIEW
//@sub `const BLOCK_TABVIEW: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_tabview, };` => `fn BLOCK_TABVIEW() -> (r: BlockRule) ensures r@ == doc("block-tabview", seq!["tabview", "tabs"], false, false, true, Run::Block(BFun::Tabview)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Tabview }; assert(r.accepts_names@ == seq!["tabview", "tabs"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/target.rs BLOCK_TARGET
//@sub `const BLOCK_TARGET: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_TARGET() -> (r: BlockRule) ensures r@ == doc("block-target", seq!["target", "anchortarget"], false, false, true, Run::Block(BFun::Target)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Target }; assert(r.accepts_names@ == seq!["target", "anchortarget"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/list.rs BLOCK_UL
//@sub `const BLOCK_UL: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: parse_unordered_block, };` => `fn BLOCK_UL() -> (r: BlockRule) ensures r@ == doc("block-list-unordered", seq!["ul"], false, true, true, Run::Block(BFun::Ul)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Ul }; assert(r.accepts_names@ == seq!["ul"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/underline.rs BLOCK_UNDERLINE
//@sub `const BLOCK_UNDERLINE: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_UNDERLINE() -> (r: BlockRule) ensures r@ == doc("block-underline", seq!["u", "underline"], false, false, false, Run::Block(BFun::Underline)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::Underline }; assert(r.accepts_names@ == seq!["u", "underline"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/user.rs BLOCK_USER
//@sub `const BLOCK_USER: BlockRule = BlockRule { name: $N, accepts_names: &[ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn, };` => `fn BLOCK_USER() -> (r: BlockRule) ensures r@ == doc("block-user", seq!["user"], true, false, false, Run::Block(BFun::User)) { let r = BlockRule { name: $N, accepts_names: vec![ $X ], accepts_star: $S, accepts_score: $C, accepts_newlines: $L, parse_fn: BFun::User }; assert(r.accepts_names@ == seq!["user"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/module/modules/backlinks.rs MODULE_BACKLINKS
//@sub `const MODULE_BACKLINKS: ModuleRule = ModuleRule { name: $N, accepts_names: &[ $X ], parse_fn, };` => `fn MODULE_BACKLINKS() -> (r: ModuleRule) ensures r@ == doc("module-backlinks", seq!["Backlinks"], false, false, false, Run::Module(MFun::Backlinks)) { let r = ModuleRule { name: $N, accepts_names: vec![ $X ], parse_fn: MFun::Backlinks }; assert(r.accepts_names@ == seq!["Backlinks"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/module/modules/categories.rs MODULE_CATEGORIES
//@sub `const MODULE_CATEGORIES: ModuleRule = ModuleRule { name: $N, accepts_names: &[ $X ], parse_fn, };` => `fn MODULE_CATEGORIES() -> (r: ModuleRule) ensures r@ == doc("module-categories", seq!["Categories"], false, false, false, Run::Module(MFun::Categories)) { let r = ModuleRule { name: $N, accepts_names: vec![ $X ], parse_fn: MFun::Categories }; assert(r.accepts_names@ == seq!["Categories"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/module/modules/css.rs MODULE_CSS
//@sub `const MODULE_CSS: ModuleRule = ModuleRule { name: $N, accepts_names: &[ $X ], parse_fn, };` => `fn MODULE_CSS() -> (r: ModuleRule) ensures r@ == doc("module-css", seq!["CSS"], false, false, false, Run::Module(MFun::Css)) { let r = ModuleRule { name: $N, accepts_names: vec![ $X ], parse_fn: MFun::Css }; assert(r.accepts_names@ == seq!["CSS"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/module/modules/join.rs MODULE_JOIN
//@sub `const MODULE_JOIN: ModuleRule = ModuleRule { name: $N, accepts_names: &[ $X ], parse_fn, };` => `fn MODULE_JOIN() -> (r: ModuleRule) ensures r@ == doc("module-join", seq!["Join"], false, false, false, Run::Module(MFun::Join)) { let r = ModuleRule { name: $N, accepts_names: vec![ $X ], parse_fn: MFun::Join }; assert(r.accepts_names@ == seq!["Join"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/module/modules/page_tree.rs MODULE_PAGE_TREE
//@sub `const MODULE_PAGE_TREE: ModuleRule = ModuleRule { name: $N, accepts_names: &[ $X ], parse_fn, };` => `fn MODULE_PAGE_TREE() -> (r: ModuleRule) ensures r@ == doc("module-page-tree", seq!["PageTree"], false, false, false, Run::Module(MFun::PageTree)) { let r = ModuleRule { name: $N, accepts_names: vec![ $X ], parse_fn: MFun::PageTree }; assert(r.accepts_names@ == seq!["PageTree"]); r }`
//@end
//@type src/parsing/rule/impls/block/blocks/module/modules/rate.rs MODULE_RATE
//@sub `const MODULE_RATE: ModuleRule = ModuleRule { name: $N, accepts_names: &[ $X ], parse_fn, };` => `fn MODULE_RATE() -> (r: ModuleRule) ensures r@ == doc("module-rate", seq!["Rate"], false, false, false, Run::Module(MFun::Rate)) { let r = ModuleRule { name: $N, accepts_names: vec![ $X ], parse_fn: MFun::Rate }; assert(r.accepts_names@ == seq!["Rate"]); r }`
//@end
//@type src/parsing/rule/impls/block/mapping.rs BLOCK_RULES
//@sub `const BLOCK_RULES: [BlockRule; 60] = [ BLOCK_ALIGN_CENTER, BLOCK_ALIGN_JUSTIFY, BLOCK_ALIGN_LEFT, BLOCK_ALIGN_RIGHT, BLOCK_ANCHOR, BLOCK_BIBCITE, BLOCK_BIBLIOGRAPHY, BLOCK_BLOCKQUOTE, BLOCK_BOLD, BLOCK_CHAR, BLOCK_CHECKBOX, BLOCK_CODE, BLOCK_COLLAPSIBLE, BLOCK_DATE, BLOCK_DEL, BLOCK_DIV, BLOCK_EMBED, BLOCK_EQUATION_REF, BLOCK_FOOTNOTE, BLOCK_FOOTNOTE_BLOCK, BLOCK_HIDDEN, BLOCK_HTML, BLOCK_IFCATEGORY, BLOCK_IFRAME, BLOCK_IFTAGS, BLOCK_IMAGE, BLOCK_INCLUDE_ELEMENTS, BLOCK_INCLUDE_WIKIDOT, BLOCK_INS, BLOCK_INVISIBLE, BLOCK_ITALICS, BLOCK_LATER, BLOCK_LI, BLOCK_LINES, BLOCK_MARK, BLOCK_MATH, BLOCK_MODULE, BLOCK_MONOSPACE, BLOCK_OL, BLOCK_PARAGRAPH, BLOCK_RADIO, BLOCK_RB, BLOCK_RT, BLOCK_RUBY, BLOCK_SIZE, BLOCK_SPAN, BLOCK_STRIKETHROUGH, BLOCK_SUBSCRIPT, BLOCK_SUPERSCRIPT, BLOCK_TAB, BLOCK_TABLE, BLOCK_TABLE_CELL_HEADER, BLOCK_TABLE_CELL_REGULAR, BLOCK_TABLE_OF_CONTENTS, BLOCK_TABLE_ROW, BLOCK_TABVIEW, BLOCK_TARGET, BLOCK_UL, BLOCK_UNDERLINE, BLOCK_USER, ];` => `fn BLOCK_RULES() -> (r: Vec<BlockRule>) ensures docs_Block(r@) == documented() { let r = vec![ BLOCK_ALIGN_CENTER(), BLOCK_ALIGN_JUSTIFY(), BLOCK_ALIGN_LEFT(), BLOCK_ALIGN_RIGHT(), BLOCK_ANCHOR(), BLOCK_BIBCITE(), BLOCK_BIBLIOGRAPHY(), BLOCK_BLOCKQUOTE(), BLOCK_BOLD(), BLOCK_CHAR(), BLOCK_CHECKBOX(), BLOCK_CODE(), BLOCK_COLLAPSIBLE(), BLOCK_DATE(), BLOCK_DEL(), BLOCK_DIV(), BLOCK_EMBED(), BLOCK_EQUATION_REF(), BLOCK_FOOTNOTE(), BLOCK_FOOTNOTE_BLOCK(), BLOCK_HIDDEN(), BLOCK_HTML(), BLOCK_IFCATEGORY(), BLOCK_IFRAME(), BLOCK_IFTAGS(), BLOCK_IMAGE(), BLOCK_INCLUDE_ELEMENTS(), BLOCK_INCLUDE_WIKIDOT(), BLOCK_INS(), BLOCK_INVISIBLE(), BLOCK_ITALICS(), BLOCK_LATER(), BLOCK_LI(), BLOCK_LINES(), BLOCK_MARK(), BLOCK_MATH(), BLOCK_MODULE(), BLOCK_MONOSPACE(), BLOCK_OL(), BLOCK_PARAGRAPH(), BLOCK_RADIO(), BLOCK_RB(), BLOCK_RT(), BLOCK_RUBY(), BLOCK_SIZE(), BLOCK_SPAN(), BLOCK_STRIKETHROUGH(), BLOCK_SUBSCRIPT(), BLOCK_SUPERSCRIPT(), BLOCK_TAB(), BLOCK_TABLE(), BLOCK_TABLE_CELL_HEADER(), BLOCK_TABLE_CELL_REGULAR(), BLOCK_TABLE_OF_CONTENTS(), BLOCK_TABLE_ROW(), BLOCK_TABVIEW(), BLOCK_TARGET(), BLOCK_UL(), BLOCK_UNDERLINE(), BLOCK_USER() ]; assert(docs_Block(r@) == documented()); r }`
//@end
pub open spec fn docs_Block(r: Seq<BlockRule>) -> Seq<Doc> { r.map_values(|b: BlockRule| b@) }
//@type src/parsing/rule/impls/block/blocks/module/mapping.rs MODULE_RULES
//@sub `const MODULE_RULES: [ModuleRule; 6] = [ MODULE_BACKLINKS, MODULE_CATEGORIES, MODULE_CSS, MODULE_JOIN, MODULE_PAGE_TREE, MODULE_RATE, ];` => `fn MODULE_RULES() -> (r: Vec<ModuleRule>) ensures docs_Module(r@) == documented_modules() { let r = vec![ MODULE_BACKLINKS(), MODULE_CATEGORIES(), MODULE_CSS(), MODULE_JOIN(), MODULE_PAGE_TREE(), MODULE_RATE() ]; assert(docs_Module(r@) == documented_modules()); r }`
//@end
pub open spec fn docs_Module(r: Seq<ModuleRule>) -> Seq<Doc> { r.map_values(|b: ModuleRule| b@) }
// The check at start-up stops the program when it fails; every test and monitor passes through it.
//@assume the self-checks of the name tables at their first use pass: no two blocks, and no two modules, have a name in common
#[verifier::external_body]
pub fn vf_assert(b: bool) ensures b { unimplemented!() }
pub open spec fn known(d: Seq<Doc>, i: int, j: int, name: Seq<char>) -> bool { 0 <= i < d.len() && 0 <= j < d[i].names.len() && eq_nocase(d[i].names[j]@, name) }
pub open spec fn mapped(m: Map<Seq<char>, Doc>, d: Seq<Doc>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].names.len() ==> m.contains_key(lower((#[trigger] d[i].names[j])@)) && m[lower(d[i].names[j]@)] == d[i]
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].names.len() && lower((#[trigger] d[i].names[j])@) == k
}
pub open spec fn plain_name(s: Seq<char>) -> Seq<char> { if ends(s, seq!['_']) { s.take(s.len() - 1) } else { s } }
// A name table, by lower-case name.
#[verifier::external_body]
pub struct BlockRuleMap { x: u8 }
impl BlockRuleMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Doc>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Doc>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: UniCase<&'static str>, v: &BlockRule) -> (r: Option<()>)
        ensures final(self)@ == old(self)@.insert(lower(k@), v@), r.is_some() == old(self)@.contains_key(lower(k@)),
    { unimplemented!() }
    // .get(&name).copied()
    #[verifier::external_body]
    pub fn get(&self, k: &UniCase<&str>) -> (r: Option<&'static BlockRule>)
        ensures match r { Some(b) => self@.contains_key(lower(k@)) && b@ == self@[lower(k@)], None => !self@.contains_key(lower(k@)) },
    { unimplemented!() }
}
//@fn src/parsing/rule/impls/block/mapping.rs build_block_rule_map r
//@sub `HashMap::new()` => `BlockRuleMap::new()`
//@sub `for block_rule in block_rules` => `for block_rule in block_rules.iter()`
//@sub `vf_check(block_rule.name.starts_with("block-"));` => ``
//@sub `vf_check(!block_rule.accepts_names.is_empty());` => ``
//@sub `for name in block_rule.accepts_names` => `for name in block_rule.accepts_names.iter()`
//@sub `vf_check(previous.is_none());` => `vf_assert(previous.is_none());`
//@sig
fn build_block_rule_map(block_rules: &Vec<BlockRule>) -> (r: BlockRuleMap)
//@spec
    ensures mapped(r@, docs_Block(block_rules@)),
//@pre
    let ghost d = docs_Block(block_rules@);
//@loop 0 it
    invariant
        d == docs_Block(block_rules@), it.seq().len() == block_rules@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == block_rules@[i],
        mapped(map@, d.take(it.index() as int)),
//@in 0
    let ghost n = it.index() as int;
    let ghost m0 = map@;
    proof { assert(*block_rule == block_rules@[n]); assert(d[n] == block_rule@); assert(d.take(n + 1).take(n) =~= d.take(n)); }
//@loop 1 jt
    invariant
        0 <= n < d.len(), d[n] == block_rule@, jt.seq().len() == block_rule.accepts_names@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == block_rule.accepts_names@[i],
        mapped(m0, d.take(n)),
        forall|k: Seq<char>| #[trigger] m0.contains_key(k) ==> map@.contains_key(k) && map@[k] == m0[k],
        forall|j: int| 0 <= j < jt.index() ==> map@.contains_key(lower((#[trigger] d[n].names[j])@)) && map@[lower(d[n].names[j]@)] == d[n],
        forall|k: Seq<char>| #[trigger] map@.contains_key(k) ==> m0.contains_key(k) || exists|j: int| 0 <= j < jt.index() && lower((#[trigger] d[n].names[j])@) == k,
//@in 1
    let ghost m1 = map@;
    proof { assert(*name == d[n].names[jt.index() as int]); }
//@tail 1
    proof {
        let j0 = jt.index() as int;
        assert forall|k: Seq<char>| #[trigger] map@.contains_key(k) implies m0.contains_key(k) || exists|j: int| 0 <= j < j0 + 1 && lower((#[trigger] d[n].names[j])@) == k by {
            if !m1.contains_key(k) { assert(lower(d[n].names[j0]@) == k); } else if !m0.contains_key(k) { let j = choose|j: int| 0 <= j < j0 && lower((#[trigger] d[n].names[j])@) == k; assert(lower(d[n].names[j]@) == k); }
        }
    }
//@after 1
    proof {
        let t = d.take(n + 1);
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i].names.len() implies map@.contains_key(lower((#[trigger] t[i].names[j])@)) && map@[lower(t[i].names[j]@)] == t[i] by {
            if i < n { assert(d.take(n)[i].names[j] == t[i].names[j]); assert(m0.contains_key(lower(t[i].names[j]@))); } else { assert(d[n].names[j] == t[i].names[j]); }
        }
        assert forall|k: Seq<char>| #[trigger] map@.contains_key(k) implies exists|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i].names.len() && lower((#[trigger] t[i].names[j])@) == k by {
            if m0.contains_key(k) { let (i, j) = choose|i: int, j: int| 0 <= i < d.take(n).len() && 0 <= j < d.take(n)[i].names.len() && lower((#[trigger] d.take(n)[i].names[j])@) == k; assert(lower(t[i].names[j]@) == k); }
            else { let j = choose|j: int| 0 <= j < d[n].names.len() && lower((#[trigger] d[n].names[j])@) == k; assert(lower(t[n].names[j]@) == k); }
        }
        assert(mapped(map@, t));
    }
//@after 0
    proof { assert(d.take(d.len() as int) =~= d); }
//@end
//@type src/parsing/rule/impls/block/mapping.rs BLOCK_RULE_MAP
//@sub `static BLOCK_RULE_MAP: Lazy<BlockRuleMap> = Lazy::new(|| build_block_rule_map(&BLOCK_RULES));` => `fn BLOCK_RULE_MAP() -> (r: BlockRuleMap) ensures mapped(r@, documented()) { build_block_rule_map(&BLOCK_RULES()) }`
//@end
//@fn src/parsing/rule/impls/block/mapping.rs get_block_rule_with_name r
//@sub `BLOCK_RULE_MAP.get(&name).copied()` => `let vf_r = BLOCK_RULE_MAP().get(&name); proof { let d = documented(); if vf_r.is_some() { let (i, j) = choose|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].names.len() && lower((#[trigger] d[i].names[j])@) == lower(name@); assert(known(d, i, j, name@)); } else { assert forall|i: int, j: int| !#[trigger] known(d, i, j, name@) by { if known(d, i, j, name@) { assert(lower(d[i].names[j]@) == lower(name@)); } } } } vf_r`
//@sub `name.strip_suffix('_').unwrap_or(name)` => `(match name.x_strip_suffix('_') { Some(vf_n) => { assert(vf_n@ == plain_name(name@)); vf_n }, None => { assert(name@ == plain_name(name@)); name } })`
//@spec
    ensures match r {
        Some(b) => exists|i: int, j: int| #[trigger] known(documented(), i, j, plain_name(name@)) && b@ == documented()[i],
        None => forall|i: int, j: int| !#[trigger] known(documented(), i, j, plain_name(name@)),
    },
//@end
#[verifier::external_body]
pub struct ModuleRuleMap { x: u8 }
impl ModuleRuleMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Doc>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Doc>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: UniCase<&'static str>, v: &ModuleRule) -> (r: Option<()>)
        ensures final(self)@ == old(self)@.insert(lower(k@), v@), r.is_some() == old(self)@.contains_key(lower(k@)),
    { unimplemented!() }
    // .get(&name).copied()
    #[verifier::external_body]
    pub fn get(&self, k: &UniCase<&str>) -> (r: Option<&'static ModuleRule>)
        ensures match r { Some(b) => self@.contains_key(lower(k@)) && b@ == self@[lower(k@)], None => !self@.contains_key(lower(k@)) },
    { unimplemented!() }
}
//@fn src/parsing/rule/impls/block/blocks/module/mapping.rs build_module_rule_map r
//@sub `HashMap::new()` => `ModuleRuleMap::new()`
//@sub `for module_rule in module_rules` => `for module_rule in module_rules.iter()`
//@sub `vf_check(module_rule.name.starts_with("module-"));` => ``
//@sub `vf_check(!module_rule.accepts_names.is_empty());` => ``
//@sub `for name in module_rule.accepts_names` => `for name in module_rule.accepts_names.iter()`
//@sub `vf_check(previous.is_none());` => `vf_assert(previous.is_none());`
//@sig
fn build_module_rule_map(module_rules: &Vec<ModuleRule>) -> (r: ModuleRuleMap)
//@spec
    ensures mapped(r@, docs_Module(module_rules@)),
//@pre
    let ghost d = docs_Module(module_rules@);
//@loop 0 it
    invariant
        d == docs_Module(module_rules@), it.seq().len() == module_rules@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == module_rules@[i],
        mapped(map@, d.take(it.index() as int)),
//@in 0
    let ghost n = it.index() as int;
    let ghost m0 = map@;
    proof { assert(*module_rule == module_rules@[n]); assert(d[n] == module_rule@); assert(d.take(n + 1).take(n) =~= d.take(n)); }
//@loop 1 jt
    invariant
        0 <= n < d.len(), d[n] == module_rule@, jt.seq().len() == module_rule.accepts_names@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == module_rule.accepts_names@[i],
        mapped(m0, d.take(n)),
        forall|k: Seq<char>| #[trigger] m0.contains_key(k) ==> map@.contains_key(k) && map@[k] == m0[k],
        forall|j: int| 0 <= j < jt.index() ==> map@.contains_key(lower((#[trigger] d[n].names[j])@)) && map@[lower(d[n].names[j]@)] == d[n],
        forall|k: Seq<char>| #[trigger] map@.contains_key(k) ==> m0.contains_key(k) || exists|j: int| 0 <= j < jt.index() && lower((#[trigger] d[n].names[j])@) == k,
//@in 1
    let ghost m1 = map@;
    proof { assert(*name == d[n].names[jt.index() as int]); }
//@tail 1
    proof {
        let j0 = jt.index() as int;
        assert forall|k: Seq<char>| #[trigger] map@.contains_key(k) implies m0.contains_key(k) || exists|j: int| 0 <= j < j0 + 1 && lower((#[trigger] d[n].names[j])@) == k by {
            if !m1.contains_key(k) { assert(lower(d[n].names[j0]@) == k); } else if !m0.contains_key(k) { let j = choose|j: int| 0 <= j < j0 && lower((#[trigger] d[n].names[j])@) == k; assert(lower(d[n].names[j]@) == k); }
        }
    }
//@after 1
    proof {
        let t = d.take(n + 1);
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i].names.len() implies map@.contains_key(lower((#[trigger] t[i].names[j])@)) && map@[lower(t[i].names[j]@)] == t[i] by {
            if i < n { assert(d.take(n)[i].names[j] == t[i].names[j]); assert(m0.contains_key(lower(t[i].names[j]@))); } else { assert(d[n].names[j] == t[i].names[j]); }
        }
        assert forall|k: Seq<char>| #[trigger] map@.contains_key(k) implies exists|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i].names.len() && lower((#[trigger] t[i].names[j])@) == k by {
            if m0.contains_key(k) { let (i, j) = choose|i: int, j: int| 0 <= i < d.take(n).len() && 0 <= j < d.take(n)[i].names.len() && lower((#[trigger] d.take(n)[i].names[j])@) == k; assert(lower(t[i].names[j]@) == k); }
            else { let j = choose|j: int| 0 <= j < d[n].names.len() && lower((#[trigger] d[n].names[j])@) == k; assert(lower(t[n].names[j]@) == k); }
        }
        assert(mapped(map@, t));
    }
//@after 0
    proof { assert(d.take(d.len() as int) =~= d); }
//@end
//@type src/parsing/rule/impls/block/blocks/module/mapping.rs MODULE_RULE_MAP
//@sub `static MODULE_RULE_MAP: Lazy<ModuleRuleMap> = Lazy::new(|| build_module_rule_map(&MODULE_RULES));` => `fn MODULE_RULE_MAP() -> (r: ModuleRuleMap) ensures mapped(r@, documented_modules()) { build_module_rule_map(&MODULE_RULES()) }`
//@end
//@fn src/parsing/rule/impls/block/blocks/module/mapping.rs get_module_rule_with_name r
//@sub `MODULE_RULE_MAP.get(&name).copied()` => `let vf_r = MODULE_RULE_MAP().get(&name); proof { let d = documented_modules(); if vf_r.is_some() { let (i, j) = choose|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].names.len() && lower((#[trigger] d[i].names[j])@) == lower(name@); assert(known(d, i, j, name@)); } else { assert forall|i: int, j: int| !#[trigger] known(d, i, j, name@) by { if known(d, i, j, name@) { assert(lower(d[i].names[j]@) == lower(name@)); } } } } vf_r`
//@spec
    ensures match r {
        Some(b) => exists|i: int, j: int| #[trigger] known(documented_modules(), i, j, name@) && b@ == documented_modules()[i],
        None => forall|i: int, j: int| !#[trigger] known(documented_modules(), i, j, name@),
    },
//@end
