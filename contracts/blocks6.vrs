// C01, C09, C11, C14, C18, C28: blocks which are made of other blocks: lists, tabs, tables.
//@import blocks3 deflist
//@use strx unicase fmt likes
//@pin src/parsing/parser_wrap.rs `pub fn new(parser: &'p mut Parser<'r, 't>, flag: AcceptsPartial) -> Self { let original = parser.accepts_partial(); parser.set_accepts_partial(flag); ParserWrap { parser, original } }`
//@pin src/parsing/parser_wrap.rs `impl Drop for ParserWrap<'_, '_, '_> { fn drop(&mut self) { self.parser.set_accepts_partial(self.original); } }`
// An item of a list: one made for it, or a list within the list.
pub open spec fn item_of<'t>(e: Element<'t>, x: ListItem<'t>) -> bool {
    e == Element::Partial(PartialElement::ListItem(x)) || match x { ListItem::SubList { element } => e is List && *element == e, _ => false }
}
// These and nothing but blank space between them, in order.
pub open spec fn list_is<'t>(e: Element<'t>, x: ListItem<'t>) -> bool { item_of(e, x) }
pub open spec fn lists_of<'t>(s: Seq<Element<'t>>, t: Seq<ListItem<'t>>) -> bool decreases s.len() {
    if s.len() == 0 { t.len() == 0 } else if white(s.last()) { lists_of(s.drop_last(), t) } else { t.len() > 0 && list_is(s.last(), t.last()) && lists_of(s.drop_last(), t.drop_last()) }
}
pub proof fn list_more<'t>(s: Seq<Element<'t>>, i: int, t: Seq<ListItem<'t>>, x: ListItem<'t>)
    requires 0 <= i < s.len(), lists_of(s.take(i), t),
    ensures white(s[i]) ==> lists_of(s.take(i + 1), t), !white(s[i]) && list_is(s[i], x) ==> lists_of(s.take(i + 1), t.push(x)),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); assert(t.push(x).drop_last() =~= t); }
pub open spec fn made_of_lists<'t>(s: Seq<Element<'t>>, t: Seq<ListItem<'t>>) -> bool { taken(AcceptsPartial::ListItem, s) && lists_of(s, t) }
pub open spec fn items_only<'t>(t: Seq<ListItem<'t>>) -> bool { exists|s: Seq<Element<'t>>| #[trigger] made_of_lists(s, t) }
// These and nothing but blank space between them, in order.
pub open spec fn tab_is<'t>(e: Element<'t>, x: Tab<'t>) -> bool { e == Element::Partial(PartialElement::Tab(x)) }
pub open spec fn tabs_of<'t>(s: Seq<Element<'t>>, t: Seq<Tab<'t>>) -> bool decreases s.len() {
    if s.len() == 0 { t.len() == 0 } else if white(s.last()) { tabs_of(s.drop_last(), t) } else { t.len() > 0 && tab_is(s.last(), t.last()) && tabs_of(s.drop_last(), t.drop_last()) }
}
pub proof fn tab_more<'t>(s: Seq<Element<'t>>, i: int, t: Seq<Tab<'t>>, x: Tab<'t>)
    requires 0 <= i < s.len(), tabs_of(s.take(i), t),
    ensures white(s[i]) ==> tabs_of(s.take(i + 1), t), !white(s[i]) && tab_is(s[i], x) ==> tabs_of(s.take(i + 1), t.push(x)),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); assert(t.push(x).drop_last() =~= t); }
pub open spec fn made_of_tabs<'t>(s: Seq<Element<'t>>, t: Seq<Tab<'t>>) -> bool { taken(AcceptsPartial::Tab, s) && tabs_of(s, t) }
pub open spec fn tabs_only<'t>(t: Seq<Tab<'t>>) -> bool { exists|s: Seq<Element<'t>>| #[trigger] made_of_tabs(s, t) }
// These and nothing but blank space between them, in order.
pub open spec fn row_is<'t>(e: Element<'t>, x: TableRow<'t>) -> bool { e == Element::Partial(PartialElement::TableRow(x)) }
pub open spec fn rows_of<'t>(s: Seq<Element<'t>>, t: Seq<TableRow<'t>>) -> bool decreases s.len() {
    if s.len() == 0 { t.len() == 0 } else if white(s.last()) { rows_of(s.drop_last(), t) } else { t.len() > 0 && row_is(s.last(), t.last()) && rows_of(s.drop_last(), t.drop_last()) }
}
pub proof fn row_more<'t>(s: Seq<Element<'t>>, i: int, t: Seq<TableRow<'t>>, x: TableRow<'t>)
    requires 0 <= i < s.len(), rows_of(s.take(i), t),
    ensures white(s[i]) ==> rows_of(s.take(i + 1), t), !white(s[i]) && row_is(s[i], x) ==> rows_of(s.take(i + 1), t.push(x)),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); assert(t.push(x).drop_last() =~= t); }
pub open spec fn made_of_rows<'t>(s: Seq<Element<'t>>, t: Seq<TableRow<'t>>) -> bool { taken(AcceptsPartial::TableRow, s) && rows_of(s, t) }
pub open spec fn rows_only<'t>(t: Seq<TableRow<'t>>) -> bool { exists|s: Seq<Element<'t>>| #[trigger] made_of_rows(s, t) }
// These and nothing but blank space between them, in order.
pub open spec fn cell_is<'t>(e: Element<'t>, x: TableCell<'t>) -> bool { e == Element::Partial(PartialElement::TableCell(x)) }
pub open spec fn cells_of<'t>(s: Seq<Element<'t>>, t: Seq<TableCell<'t>>) -> bool decreases s.len() {
    if s.len() == 0 { t.len() == 0 } else if white(s.last()) { cells_of(s.drop_last(), t) } else { t.len() > 0 && cell_is(s.last(), t.last()) && cells_of(s.drop_last(), t.drop_last()) }
}
pub proof fn cell_more<'t>(s: Seq<Element<'t>>, i: int, t: Seq<TableCell<'t>>, x: TableCell<'t>)
    requires 0 <= i < s.len(), cells_of(s.take(i), t),
    ensures white(s[i]) ==> cells_of(s.take(i + 1), t), !white(s[i]) && cell_is(s[i], x) ==> cells_of(s.take(i + 1), t.push(x)),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); assert(t.push(x).drop_last() =~= t); }
pub open spec fn made_of_cells<'t>(s: Seq<Element<'t>>, t: Seq<TableCell<'t>>) -> bool { taken(AcceptsPartial::TableCell, s) && cells_of(s, t) }
pub open spec fn cells_only<'t>(t: Seq<TableCell<'t>>) -> bool { exists|s: Seq<Element<'t>>| #[trigger] made_of_cells(s, t) }
pub proof fn list_more_anylist<'t>(s: Seq<Element<'t>>, i: int, t: Seq<ListItem<'t>>)
    requires 0 <= i < s.len(), lists_of(s.take(i), t), white(s[i]),
    ensures lists_of(s.take(i + 1), t),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn list_more_anytab<'t>(s: Seq<Element<'t>>, i: int, t: Seq<Tab<'t>>)
    requires 0 <= i < s.len(), tabs_of(s.take(i), t), white(s[i]),
    ensures tabs_of(s.take(i + 1), t),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn list_more_anyrow<'t>(s: Seq<Element<'t>>, i: int, t: Seq<TableRow<'t>>)
    requires 0 <= i < s.len(), rows_of(s.take(i), t), white(s[i]),
    ensures rows_of(s.take(i + 1), t),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn list_more_anycell<'t>(s: Seq<Element<'t>>, i: int, t: Seq<TableCell<'t>>)
    requires 0 <= i < s.len(), cells_of(s.take(i), t), white(s[i]),
    ensures cells_of(s.take(i + 1), t),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
// A list of this kind, not empty, with the attributes given.
pub open spec fn lists<'r, 't>(o: &Parser<'r, 't>, more: bool, kind: ListType, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] { Element::List { ltype, items, attributes } => ltype == kind && items_only(items@) && headed(o, more, attributes@), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/list.rs parse_list_block r
//@rename list_inner
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::ListItem);` => ``
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sub `let items = { let mut items = Vec::new(); $REST items };` => `let mut items: Vec<ListItem> = Vec::new(); $REST`
//@sub `Element::List { ltype, attributes, items: sub_items, } => { let element = Box::new(Element::List { ltype, attributes, items: sub_items, }); $X; } element if element.is_whitespace() => continue, _ => return Err($E),` => `Element::List { ltype, attributes, items: sub_items, } => { let vf_l = Element::List { ltype, attributes, items: sub_items, }; let element = Box::new(vf_l); $X; } vf_element => { if vf_element.is_whitespace() { } else { return Err($E); } }`
//@macros
//@sig
fn list_inner<'r, 't>(block_rule: &BlockRule, list_type: ListType, parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is ListItem, answers(block_rule@, name@), !flag_star,
    ensures final(parser).ruled(old(parser), r), lists(old(parser), in_head, list_type, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `if strip_line_breaks`
    let ghost s0 = elements@;
    proof { assert(taken(AcceptsPartial::ListItem, s0)); }
//@past 0 `strip_newlines(&mut elements);`
    proof { let (a, b) = choose|a: int, b: int| #[trigger] within_breaks(s0, elements@, a, b); assert forall|i: int| 0 <= i < elements@.len() implies match #[trigger] elements@[i] { Element::Partial(p) => takes(AcceptsPartial::ListItem, p), _ => true } by { assert(elements@[i] == s0[a + i]); } }
//@at 0 `for element in elements`
    let ghost s = elements@;
//@loop 0 it
    invariant
        it.seq() == s, parser.ran(&p0), parser.wf(), parser.depth == p0.depth, *old(parser) == p0, lists_of(s.take(it.index()), items@), taken(AcceptsPartial::ListItem, s),
//@in 0
    let ghost i0 = items@;
    let ghost e0 = element;
    proof { assert(element == s[it.index()]); }
//@tail 0
    proof { if white(e0) { list_more_anylist(s, it.index(), i0); assert(items@ == i0); } else { list_more(s, it.index(), i0, items@.last()); assert(items@ =~= i0.push(items@.last())); } }
//@after 0
    proof { assert(s.take(s.len() as int) =~= s); assert(made_of_lists(s, items@)); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/list.rs parse_list_block r
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::ListItem); $REST ok!(false; element, errors)` => `let vf_original = parser.accepts_partial(); parser.set_accepts_partial(AcceptsPartial::ListItem); let ghost p2 = *parser; proof { like_ran(&p2, &p0, AcceptsPartial::ListItem); } let vf_r = list_inner(block_rule, list_type, parser, name, flag_star, flag_score, in_head); parser.set_accepts_partial(vf_original); vf_r`
//@macros
//@sig
fn parse_list_block<'r, 't>(vf_which: (&BlockRule, ListType), parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).called(vf_which.0@, name@, flag_star, flag_score), !vf_which.0@.star,
    ensures final(parser).ruled(old(parser), r), lists(old(parser), in_head, vf_which.1, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    let (block_rule, list_type) = vf_which;
//@at 0 `parser.set_accepts_partial(vf_original)`
    proof { if r_ok(vf_r) { same_heads(&p0, &p2, in_head, list_type, vf_r); } }
//@end
pub proof fn same_heads<'r, 't>(o: &Parser<'r, 't>, p: &Parser<'r, 't>, more: bool, kind: ListType, r: ParseResult<'r, 't, Elements<'t>>)
    requires like(p, o, AcceptsPartial::ListItem), lists(p, more, kind, r), r.is_ok(),
    ensures lists(o, more, kind, r),
{ let e = r->Ok_0.item@[0]; same_headed(o, p, AcceptsPartial::ListItem, more, e->List_attributes@); }
//@fn src/parsing/rule/impls/block/blocks/list.rs parse_unordered_block r
//@rename block_ul
//@sub `&BLOCK_UL` => `&BLOCK_UL()`
//@macros
//@spec
    requires old(parser).called(the(BFun::Ul), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), lists(old(parser), in_head, ListType::Bullet, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@fn src/parsing/rule/impls/block/blocks/list.rs parse_ordered_block r
//@rename block_ol
//@sub `&BLOCK_OL` => `&BLOCK_OL()`
//@macros
//@spec
    requires old(parser).called(the(BFun::Ol), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), lists(old(parser), in_head, ListType::Numbered, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
// An item of a list: what is in it, without line breaks around it if asked.
pub open spec fn listed<'r, 't>(o: &Parser<'r, 't>, more: bool, bare: bool, e: Element<'t>) -> bool {
    match e { Element::Partial(PartialElement::ListItem(ListItem::Elements { elements, attributes })) => headed(o, more, attributes@) && no_partial(elements@) && (bare && elements@.len() > 0 ==> !line_off(elements@[0]) && !line_off(elements@.last())), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/list.rs parse_list_item r
//@rename block_li
//@sub `&BLOCK_LI` => `&BLOCK_LI()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Li), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> r->Ok_0.item@.len() == 1 && listed(old(parser), in_head, flag_score, r->Ok_0.item@[0]),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@at 0 `if strip_line_breaks`
    let ghost s0 = elements@;
//@past 0 `strip_newlines(&mut elements);`
    proof { let (a, b) = choose|a: int, b: int| #[trigger] within_breaks(s0, elements@, a, b); assert forall|i: int| 0 <= i < elements@.len() implies !partial(#[trigger] elements@[i]) by { assert(elements@[i] == s0[a + i]); assert(!partial(s0[a + i])); } }
//@end
// A tab view: its tabs, one at least.
pub open spec fn tabbed<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] { Element::TabView(t) => tabs_only(t@) && t@.len() > 0, _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/tabs.rs parse_tabview r
//@rename tabview_inner
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::Tab);` => ``
//@sub `&BLOCK_TABVIEW` => `&BLOCK_TABVIEW()`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sub `let mut tabs = Vec::new(); for element in elements { match element { Element::Partial(PartialElement::Tab(tab)) => tabs.push(tab), element if element.is_whitespace() => (), _ => return Err($E), } }` => `let mut items: Vec<Tab> = Vec::new(); for element in elements { match element { Element::Partial(PartialElement::Tab(tab)) => { items.push(tab); } vf_element => { if vf_element.is_whitespace() { } else { return Err($E); } } } } let tabs = items;`
//@macros
//@sig
fn tabview_inner<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is Tab, answers(the(BFun::Tabview), name@), !flag_star, !flag_score,
    ensures final(parser).ruled(old(parser), r), tabbed(r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `for element in elements`
    let ghost s = elements@;
//@loop 0 it
    invariant
        it.seq() == s, parser.ran(&p0), parser.wf(), parser.depth == p0.depth, *old(parser) == p0, tabs_of(s.take(it.index()), items@), taken(AcceptsPartial::Tab, s),
//@in 0
    let ghost i0 = items@;
    let ghost e0 = element;
    proof { assert(element == s[it.index()]); }
//@tail 0
    proof { if white(e0) { list_more_anytab(s, it.index(), i0); assert(items@ == i0); } else { tab_more(s, it.index(), i0, items@.last()); assert(items@ =~= i0.push(items@.last())); } }
//@after 0
    proof { assert(s.take(s.len() as int) =~= s); assert(made_of_tabs(s, items@)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/tabs.rs parse_tabview r
//@rename block_tabview
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::Tab); $REST ok!(false; Element::TabView(tabs), errors)` => `let vf_original = parser.accepts_partial(); parser.set_accepts_partial(AcceptsPartial::Tab); let ghost p2 = *parser; proof { like_ran(&p2, &p0, AcceptsPartial::Tab); } let vf_r = tabview_inner(parser, name, flag_star, flag_score, in_head); parser.set_accepts_partial(vf_original); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::Tabview), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), tabbed(r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
pub struct TabLabel;
impl<'r, 't> Converts<'r, 't, &'t str> for TabLabel {
    open spec fn gives(self, value: Option<Seq<char>>, r: &'t str) -> bool { value == Some(r@) }
//@fn src/parsing/rule/impls/block/blocks/tabs.rs parse_tab r
//@rename call
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |parser, value| match value { $CASES })?; $REST ok!(false; element, errors)` => `match value { $CASES }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<&'t str, ParseError>)
//@spec
//@end
}
// A tab: its label as it is written, and paragraphs.
pub open spec fn tab_says<'t>(e: Element<'t>, label: Seq<char>) -> bool {
    match e { Element::Partial(PartialElement::Tab(t)) => t.label@ == label && in_paragraphs(t.elements@) && no_partial(t.elements@), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/tabs.rs parse_tab r
//@rename block_tab
//@sub `&BLOCK_TAB` => `&BLOCK_TAB()`
//@sub `in_head, |parser, value| match value { $CASES })?` => `in_head, TabLabel)?`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@macros
//@spec
    requires old(parser).called(the(BFun::Tab), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), r.is_ok() ==> r->Ok_0.item@.len() == 1 && told(old(parser), in_head, |s: Seq<char>| tab_says(r->Ok_0.item@[0], s)),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, TabLabel)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, TabLabel, label, v);
    proof { assert(value_head(&p0, in_head, TabLabel, label)); assert(converts(&p0, in_head, TabLabel, label, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
//@type src/parsing/rule/impls/block/blocks/table.rs ParsedBlock
//@end
// The head and the body of one of the blocks of a table.
//@fn src/parsing/rule/impls/block/blocks/table.rs parse_block r
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sig
fn parse_block<'r: 't, 't>(parser: &mut Parser<'r, 't>, name: &str, flag_star: bool, flag_score: bool, in_head: bool, vf_which: (&BlockRule, &str)) -> (r: Result<ParsedBlock<'t>, ParseError>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, answers(vf_which.0@, name@), !flag_star, !flag_score,
    ensures final(parser).went(old(parser)), r.is_ok() ==> final(parser).depth == old(parser).depth && headed(old(parser), in_head, r->Ok_0.attributes@) && taken(old(parser).accepts_partial, r->Ok_0.elements@),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    let (block_rule, description) = vf_which;
//@past 0 `in_head)?;`
    let ghost m0 = arguments.inner@;
    proof { assert(head(&p0, in_head, m0)); }
//@end
//@pin src/parsing/rule/impls/block/blocks/table.rs `macro_rules! extract_table_items { ($parser:expr, $elements:expr; $table_item_type:ident, $error_kind:ident $(,)?) => {{ let mut items = Vec::new(); for element in $elements { match element { Element::Partial(PartialElement::$table_item_type(item)) => { items.push(item); } element if element.is_whitespace() => (), _ => return Err($parser.make_err(ParseErrorKind::$error_kind)), } } items }}; }`

pub open spec fn table_made<'r, 't>(o: &Parser<'r, 't>, more: bool, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] { Element::Table(t) => rows_only(t.rows@) && headed(o, more, t.attributes@), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/table.rs parse_table r
//@rename table_inner
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableRow);` => ``
//@sub `(&BLOCK_TABLE,` => `(&BLOCK_TABLE(),`
//@sub `extract_table_items!(parser, elements; TableRow, TableContainsNonRow)` => `{ let mut items: Vec<TableRow> = Vec::new(); for element in elements { match element { Element::Partial(PartialElement::TableRow(item)) => { items.push(item); } vf_element => { if vf_element.is_whitespace() { } else { return Err(parser.make_err(ParseErrorKind::TableContainsNonRow)); } } } } items }`
//@macros
//@sig
fn table_inner<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is TableRow, answers(the(BFun::Table), name@), !flag_star, !flag_score,
    ensures final(parser).ruled(old(parser), r), table_made(old(parser), in_head, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `for element in elements`
    let ghost s = elements@;
//@loop 0 it
    invariant
        it.seq() == s, parser.ran(&p0), parser.wf(), parser.depth == p0.depth, *old(parser) == p0, rows_of(s.take(it.index()), items@), taken(AcceptsPartial::TableRow, s),
//@in 0
    let ghost i0 = items@;
    let ghost e0 = element;
    proof { assert(element == s[it.index()]); }
//@tail 0
    proof { if white(e0) { list_more_anyrow(s, it.index(), i0); assert(items@ == i0); } else { row_more(s, it.index(), i0, items@.last()); assert(items@ =~= i0.push(items@.last())); } }
//@after 0
    proof { assert(s.take(s.len() as int) =~= s); assert(made_of_rows(s, items@)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/table.rs parse_table r
//@rename block_table
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableRow); $REST ok!(false; element, errors)` => `let vf_original = parser.accepts_partial(); parser.set_accepts_partial(AcceptsPartial::TableRow); let ghost p2 = *parser; proof { like_ran(&p2, &p0, AcceptsPartial::TableRow); } let vf_r = table_inner(parser, name, flag_star, flag_score, in_head); parser.set_accepts_partial(vf_original); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::Table), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), table_made(old(parser), in_head, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `parser.set_accepts_partial(vf_original)`
    proof { if r_ok(vf_r) { let e = vf_r->Ok_0.item@[0]; same_headed(&p0, &p2, AcceptsPartial::TableRow, in_head, e->Table_0.attributes@); } }
//@end
pub open spec fn row_made<'r, 't>(o: &Parser<'r, 't>, more: bool, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] { Element::Partial(PartialElement::TableRow(t)) => cells_only(t.cells@) && headed(o, more, t.attributes@), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/table.rs parse_row r
//@rename row_inner
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableCell);` => ``
//@sub `(&BLOCK_TABLE_ROW,` => `(&BLOCK_TABLE_ROW(),`
//@sub `extract_table_items!(parser, elements; TableCell, TableRowContainsNonCell)` => `{ let mut items: Vec<TableCell> = Vec::new(); for element in elements { match element { Element::Partial(PartialElement::TableCell(item)) => { items.push(item); } vf_element => { if vf_element.is_whitespace() { } else { return Err(parser.make_err(ParseErrorKind::TableRowContainsNonCell)); } } } } items }`
//@macros
//@sig
fn row_inner<'r, 't>(parser: &mut Parser<'r, 't>, name: &'t str, flag_star: bool, flag_score: bool, in_head: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    requires old(parser).wf(), old(parser).depth <= MAX_RECURSION_DEPTH, old(parser).accepts_partial is TableCell, answers(the(BFun::TableRow), name@), !flag_star, !flag_score,
    ensures final(parser).ruled(old(parser), r), row_made(old(parser), in_head, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `for element in elements`
    let ghost s = elements@;
//@loop 0 it
    invariant
        it.seq() == s, parser.ran(&p0), parser.wf(), parser.depth == p0.depth, *old(parser) == p0, cells_of(s.take(it.index()), items@), taken(AcceptsPartial::TableCell, s),
//@in 0
    let ghost i0 = items@;
    let ghost e0 = element;
    proof { assert(element == s[it.index()]); }
//@tail 0
    proof { if white(e0) { list_more_anycell(s, it.index(), i0); assert(items@ == i0); } else { cell_more(s, it.index(), i0, items@.last()); assert(items@ =~= i0.push(items@.last())); } }
//@after 0
    proof { assert(s.take(s.len() as int) =~= s); assert(made_of_cells(s, items@)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/table.rs parse_row r
//@rename block_row
//@sub `let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableCell); $REST ok!(false; element, errors)` => `let vf_original = parser.accepts_partial(); parser.set_accepts_partial(AcceptsPartial::TableCell); let ghost p2 = *parser; proof { like_ran(&p2, &p0, AcceptsPartial::TableCell); } let vf_r = row_inner(parser, name, flag_star, flag_score, in_head); parser.set_accepts_partial(vf_original); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::TableRow), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), row_made(old(parser), in_head, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `parser.set_accepts_partial(vf_original)`
    proof { if r_ok(vf_r) { let e = vf_r->Ok_0.item@[0]; same_headed(&p0, &p2, AcceptsPartial::TableCell, in_head, e->Partial_0->TableRow_0.attributes@); } }
//@end
#[verifier::external_body]
pub fn vf_remove<'t>(a: &mut AttributeMap<'t>, key: &str) -> (r: Option<Cow<'t, str>>)
    ensures final(a)@ == old(a)@.remove(key@), match r { Some(v) => old(a)@.contains_key(key@) && v@ == old(a)@[key@], None => !old(a)@.contains_key(key@) }
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_nonzero(s: &Cow<str>) -> (r: Result<NonZeroU32, ()>) ensures match r { Ok(n) => spanning(s@) == Some(n@ as int), Err(_) => spanning(s@).is_none() } { unimplemented!() }
pub uninterp spec fn spanning(s: Seq<char>) -> Option<int>;
//@pin src/tree/attribute/mod.rs `pub fn remove(&mut self, attribute: &str) -> Option<Cow<'t, str>> { self.inner.remove(attribute) }`
// A cell: as many columns as its attribute says, one if it does not, and the other attributes.
pub open spec fn cell_says<'t>(t: TableCell<'t>, a: Map<Seq<char>, Seq<char>>, header: bool) -> bool {
    let own = if a.contains_key("colspan"@) { spanning(a["colspan"@]) } else { None };
    t.header == header && t.align is None && t.attributes@ == a.remove("colspan"@) && t.column_span@ == match own { Some(n) => n, None => 1 }
}
pub open spec fn celled<'t>(s: Seq<Element<'t>>, a: Map<Seq<char>, Seq<char>>, header: bool, t: TableCell<'t>) -> bool { cell_says(t, a, header) && trimmed(s, t.elements@) }
pub open spec fn cell_made<'r, 't>(s: Seq<Element<'t>>, a: Map<Seq<char>, Seq<char>>, header: bool, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() && !r->Ok_0.paragraph_safe && r->Ok_0.item@.len() == 1 && match r->Ok_0.item@[0] { Element::Partial(PartialElement::TableCell(t)) => celled(s, a, header, t), _ => false }
}
//@fn src/parsing/rule/impls/block/blocks/table.rs parse_cell r
//@sub `match attributes.remove("colspan")` => `match vf_remove(&mut attributes, "colspan")`
//@sub `value.parse().unwrap_or(NonZeroU32::new(1).unwrap())` => `match vf_nonzero(&value) { Ok(vf_n) => vf_n, Err(_) => NonZeroU32::new(1).unwrap() }`
//@macros
//@sig
fn parse_cell<'r, 't>(vf_elements: Vec<Element<'t>>, vf_attributes: AttributeMap<'t>, errors: Vec<ParseError>, header: bool) -> (r: ParseResult<'r, 't, Elements<'t>>)
//@spec
    ensures cell_made(vf_elements@, vf_attributes@, header, r),
//@pre
    let mut elements = vf_elements;
    let mut attributes = vf_attributes;
//@end
pub open spec fn cells_in<'r, 't>(o: &Parser<'r, 't>, more: bool, header: bool, r: ParseResult<'r, 't, Elements<'t>>, s: Seq<Element<'t>>, a: Map<Seq<char>, Seq<char>>) -> bool { no_partial(s) && headed(o, more, a) && cell_made(s, a, header, r) }
pub open spec fn a_cell<'r, 't>(o: &Parser<'r, 't>, more: bool, header: bool, r: ParseResult<'r, 't, Elements<'t>>) -> bool {
    r.is_ok() ==> exists|s: Seq<Element<'t>>, a: Map<Seq<char>, Seq<char>>| #[trigger] cells_in(o, more, header, r, s, a)
}
//@fn src/parsing/rule/impls/block/blocks/table.rs parse_cell_regular r
//@rename block_cell_regular
//@sub `(&BLOCK_TABLE_CELL_REGULAR,` => `(&BLOCK_TABLE_CELL_REGULAR(),`
//@sub `parse_cell(elements, attributes, errors, false)` => `let vf_r = parse_cell(elements, attributes, errors, false); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::TableCellRegular), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), a_cell(old(parser), in_head, false, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `let vf_r`
    let ghost s0 = elements@;
    let ghost a0 = attributes@;
//@past 0 `errors, false);`
    proof { assert(cells_in(&p0, in_head, false, vf_r, s0, a0)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/table.rs parse_cell_header r
//@rename block_cell_header
//@sub `(&BLOCK_TABLE_CELL_HEADER,` => `(&BLOCK_TABLE_CELL_HEADER(),`
//@sub `parse_cell(elements, attributes, errors, true)` => `let vf_r = parse_cell(elements, attributes, errors, true); vf_r`
//@macros
//@spec
    requires old(parser).called(the(BFun::TableCellHeader), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), a_cell(old(parser), in_head, true, r),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `let vf_r`
    let ghost s0 = elements@;
    let ghost a0 = attributes@;
//@past 0 `errors, true);`
    proof { assert(cells_in(&p0, in_head, true, vf_r, s0, a0)); }
//@end
