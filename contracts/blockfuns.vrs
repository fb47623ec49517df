// C01, C09, C11, C25, C28: the function of every block that can be named keeps the contract it is called under.
//@import blocks blocks2 blocks3 blocks4 blocks5 blocks6 blocks7 blocks8
//@use blockfn
// Calling a block's function, as unit blockrule assumes it.
pub fn vf_block_fn_proved<'r, 't>(block: &BlockRule, parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires old(parser).called(block@, name@, flag_star, flag_score), documented_as(block@, name@),
    ensures final(parser).ruled(old(parser), r),
{
    proof {
        let (i, j) = choose|i: int, j: int| #[trigger] known(documented(), i, j, plain_name(name@)) && block@ == documented()[i];
        the_documented(i);
        assert(block@ == the(block.parse_fn));
    }
    match block.parse_fn {
        BFun::AlignCenter => block_align_center(parser, name, flag_star, flag_score, in_head),
        BFun::AlignJustify => block_align_justify(parser, name, flag_star, flag_score, in_head),
        BFun::AlignLeft => block_align_left(parser, name, flag_star, flag_score, in_head),
        BFun::AlignRight => block_align_right(parser, name, flag_star, flag_score, in_head),
        BFun::Anchor => block_anchor(parser, name, flag_star, flag_score, in_head),
        BFun::Bibcite => block_bibcite(parser, name, flag_star, flag_score, in_head),
        BFun::Bibliography => block_bibliography(parser, name, flag_star, flag_score, in_head),
        BFun::Blockquote => block_blockquote(parser, name, flag_star, flag_score, in_head),
        BFun::Bold => block_bold(parser, name, flag_star, flag_score, in_head),
        BFun::Char => block_char(parser, name, flag_star, flag_score, in_head),
        BFun::Checkbox => block_checkbox(parser, name, flag_star, flag_score, in_head),
        BFun::Code => block_code(parser, name, flag_star, flag_score, in_head),
        BFun::Collapsible => block_collapsible(parser, name, flag_star, flag_score, in_head),
        BFun::Date => block_date(parser, name, flag_star, flag_score, in_head),
        BFun::Del => block_del(parser, name, flag_star, flag_score, in_head),
        BFun::Div => block_div(parser, name, flag_star, flag_score, in_head),
        BFun::Embed => block_embed(parser, name, flag_star, flag_score, in_head),
        BFun::EquationRef => block_equation_ref(parser, name, flag_star, flag_score, in_head),
        BFun::Footnote => block_footnote(parser, name, flag_star, flag_score, in_head),
        BFun::FootnoteBlock => block_footnote_block(parser, name, flag_star, flag_score, in_head),
        BFun::Hidden => block_hidden(parser, name, flag_star, flag_score, in_head),
        BFun::Html => block_html(parser, name, flag_star, flag_score, in_head),
        BFun::Ifcategory => block_ifcategory(parser, name, flag_star, flag_score, in_head),
        BFun::Iframe => block_iframe(parser, name, flag_star, flag_score, in_head),
        BFun::Iftags => block_iftags(parser, name, flag_star, flag_score, in_head),
        BFun::Image => block_image(parser, name, flag_star, flag_score, in_head),
        BFun::IncludeElements => block_include_elements(parser, name, flag_star, flag_score, in_head),
        BFun::IncludeWikidot => block_include_wikidot(parser, name, flag_star, flag_score, in_head),
        BFun::Ins => block_ins(parser, name, flag_star, flag_score, in_head),
        BFun::Invisible => block_invisible(parser, name, flag_star, flag_score, in_head),
        BFun::Italics => block_italics(parser, name, flag_star, flag_score, in_head),
        BFun::Later => block_later(parser, name, flag_star, flag_score, in_head),
        BFun::Li => block_li(parser, name, flag_star, flag_score, in_head),
        BFun::Lines => block_lines(parser, name, flag_star, flag_score, in_head),
        BFun::Mark => block_mark(parser, name, flag_star, flag_score, in_head),
        BFun::Math => block_math(parser, name, flag_star, flag_score, in_head),
        BFun::Module => block_module(parser, name, flag_star, flag_score, in_head),
        BFun::Monospace => block_monospace(parser, name, flag_star, flag_score, in_head),
        BFun::Ol => block_ol(parser, name, flag_star, flag_score, in_head),
        BFun::Paragraph => block_paragraph(parser, name, flag_star, flag_score, in_head),
        BFun::Radio => block_radio(parser, name, flag_star, flag_score, in_head),
        BFun::Rb => block_rb(parser, name, flag_star, flag_score, in_head),
        BFun::Rt => block_rt(parser, name, flag_star, flag_score, in_head),
        BFun::Ruby => block_ruby(parser, name, flag_star, flag_score, in_head),
        BFun::Size => block_size(parser, name, flag_star, flag_score, in_head),
        BFun::Span => block_span(parser, name, flag_star, flag_score, in_head),
        BFun::Strikethrough => block_strikethrough(parser, name, flag_star, flag_score, in_head),
        BFun::Subscript => block_subscript(parser, name, flag_star, flag_score, in_head),
        BFun::Superscript => block_superscript(parser, name, flag_star, flag_score, in_head),
        BFun::Tab => block_tab(parser, name, flag_star, flag_score, in_head),
        BFun::Table => block_table(parser, name, flag_star, flag_score, in_head),
        BFun::TableCellHeader => block_cell_header(parser, name, flag_star, flag_score, in_head),
        BFun::TableCellRegular => block_cell_regular(parser, name, flag_star, flag_score, in_head),
        BFun::TableOfContents => block_toc(parser, name, flag_star, flag_score, in_head),
        BFun::TableRow => block_row(parser, name, flag_star, flag_score, in_head),
        BFun::Tabview => block_tabview(parser, name, flag_star, flag_score, in_head),
        BFun::Target => block_target(parser, name, flag_star, flag_score, in_head),
        BFun::Ul => block_ul(parser, name, flag_star, flag_score, in_head),
        BFun::Underline => block_underline(parser, name, flag_star, flag_score, in_head),
        BFun::User => block_user(parser, name, flag_star, flag_score, in_head),
    }
}
pub proof fn the_documented(i: int)
    requires 0 <= i < documented().len(),
    ensures documented()[i].run is Block, documented()[i] == the(documented()[i].run->Block_0),
{
}
