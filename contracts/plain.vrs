// C27: what the plain text of a document consists of.
//@import pageref variables nonempty
//@use fmt
//@use media
//@use tree
//@use nonzero
#[verifier::external_body]
pub struct VariableMap<'t> { x: std::marker::PhantomData<&'t str> }
impl<'t> VariableMap<'t> { pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
#[verifier::external_body]
pub struct BibliographyList<'t> { x: std::marker::PhantomData<&'t str> }
impl<'t> BibliographyList<'t> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct WikitextSettings { x: u8 }
#[verifier::external_body]
pub struct ScoreValue { x: u8 }
pub struct Handle;
//@type src/data/page_info.rs PageInfo
//@end
//@type src/render/text/context.rs TextContext
//@end
//@type src/render/text/mod.rs TextRender
//@end
//@type src/render/text/mod.rs RenderPartial
//@end
//@type src/tree/mod.rs SyntaxTree
//@keep elements table_of_contents footnotes bibliographies wikitext_len
//@end

// What does not change while text is written.
pub struct Env { pub prefix: Seq<char>, pub invisible: bool, pub vars: Seq<Map<Seq<char>, Seq<char>>>, pub site: Seq<char> }
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
// Text is written as it is, or as that many blanks.
pub open spec fn put(o: Seq<char>, k: Env, t: Seq<char>) -> Seq<char> { o + if k.invisible { blanks(t.len()) } else { t } }
pub open spec fn nl(o: Seq<char>, k: Env) -> Seq<char> { o.push('\n') + k.prefix }
pub open spec fn nls(o: Seq<char>, k: Env, n: nat) -> Seq<char> decreases n { if n == 0 { o } else { nl(nls(o, k, (n - 1) as nat), k) } }
pub open spec fn fresh(o: Seq<char>, k: Env) -> Seq<char> { if o.len() > 0 && o.last() == '\n' { o } else { nl(o, k) } }
pub open spec fn unseen(k: Env) -> Env { Env { invisible: true, ..k } }
pub open spec fn value(k: Env, name: Seq<char>) -> Seq<char> {
    match lookup(k.vars, name) { Some(v) => v, None => seq!['{', '$'] + name + seq!['}'] }
}
pub uninterp spec fn title(site: Seq<char>, page: Seq<char>) -> Option<Seq<char>>;
pub open spec fn label_text(site: Seq<char>, link: LinkLocation, label: LinkLabel) -> Seq<char> {
    match (label, link) {
        (LinkLabel::Text(t), _) => t@,
        (LinkLabel::Url(Some(t)), _) => t@,
        (_, LinkLocation::Url(u)) => u@,
        (LinkLabel::Url(None), LinkLocation::Page(p)) => p.page@,
        (LinkLabel::Page, LinkLocation::Page(p)) => match title(match p.site { Some(s) => s@, None => site }, p.page@) { Some(t) => t, None => printed(opt(p.site), p.page@) },
    }
}
pub uninterp spec fn date_text(d: DateItem) -> Option<Seq<char>>;
pub open spec fn own_lines(c: ContainerType) -> bool { c is Div || c is Paragraph || c is Blockquote || c is Header }
// The text of elements is the text of each of them, one after the other.
pub open spec fn plains(s: Seq<Element>, o: Seq<char>, k: Env) -> Seq<char>
    decreases s, s.len(),
{ if s.len() == 0 { o } else { plain(s.last(), plains(s.drop_last(), o, k), k) } }
pub open spec fn plain(e: Element, o: Seq<char>, k: Env) -> Seq<char>
    decreases e,
{
    match e {
        Element::Container(c) => {
            let t = c.ctype;
            if t is Hidden { o }
            else if t is Invisible { plains(c.elements@, o, unseen(k)) }
            else if own_lines(t) { nl(plains(c.elements@, nl(o, k), k), k) }
            else if t is RubyText { put(plains(c.elements@, put(o, k, seq!['(']), k), k, seq![')']) }
            else { plains(c.elements@, o, k) }
        },
        Element::Text(t) => put(o, k, t@),
        Element::Raw(t) => put(o, k, t@),
        Element::Email(t) => put(o, k, t@),
        Element::Variable(n) => put(o, k, value(k, n@)),
        Element::Table(t) => nl(rows(t.rows@, fresh(o, k), k), k),
        Element::TabView(t) => tabbed(t@, o, k),
        Element::Anchor { elements, .. } => plains(elements@, o, k),
        Element::Link { link, label, .. } => put(o, k, label_text(k.site, link, label)),
        Element::List { items, .. } => listed(items@, fresh(o, k), k),
        Element::DefinitionList(d) => nl(defined(d@, o, k), k),
        Element::Collapsible { elements, .. } => plains(elements@, o, k),
        Element::User { name, .. } => put(o, k, name@),
        Element::Date { value, .. } => put(o, k, match date_text(value) { Some(t) => t, None => "<ERROR>"@ }),
        Element::Color { elements, .. } => plains(elements@, o, k),
        Element::Code { contents, .. } => nl(put(nl(o, k), k, contents@), k),
        Element::EquationReference(n) => put(o, k, seq!['['] + n@ + seq![']']),
        Element::Include { variables, elements, .. } => plains(elements@, o, Env { vars: k.vars.push(variables@), ..k }),
        Element::LineBreak => nl(o, k),
        Element::LineBreaks(n) => nls(o, k, n@),
        // everything else shows no text
        _ => o,
    }
}
pub open spec fn cells(s: Seq<TableCell>, o: Seq<char>, k: Env) -> Seq<char>
    decreases s, s.len(),
{ if s.len() == 0 { o } else { plains(s.last().elements@, cells(s.drop_last(), o, k), k) } }
pub open spec fn rows(s: Seq<TableRow>, o: Seq<char>, k: Env) -> Seq<char>
    decreases s, s.len(),
{ if s.len() == 0 { o } else { nl(cells(s.last().cells@, rows(s.drop_last(), o, k), k), k) } }
pub open spec fn tabbed(s: Seq<Tab>, o: Seq<char>, k: Env) -> Seq<char>
    decreases s, s.len(),
{ if s.len() == 0 { o } else { nl(plains(s.last().elements@, nl(put(tabbed(s.drop_last(), o, k), k, s.last().label@), k), k), k) } }
pub open spec fn listed(s: Seq<ListItem>, o: Seq<char>, k: Env) -> Seq<char>
    decreases s, s.len(),
{
    if s.len() == 0 { o } else {
        let p = listed(s.drop_last(), o, k);
        match s.last() {
            ListItem::SubList { element } => plain(*element, p, k),
            ListItem::Elements { elements, .. } => if elements@.len() == 0 { p } else { nl(plains(elements@, p, k), k) },
        }
    }
}
pub open spec fn defined(s: Seq<DefinitionListItem>, o: Seq<char>, k: Env) -> Seq<char>
    decreases s, s.len(),
{
    if s.len() == 0 { o } else {
        nl(plains(s.last().value_elements@, put(plains(s.last().key_elements@, defined(s.drop_last(), o, k), k), k, seq![' ']), k), k)
    }
}
// No partial element anywhere in it.
pub open spec fn whole(e: Element) -> bool
    decreases e,
{
    match e {
        Element::Partial(_) => false,
        Element::Container(c) => wholes(c.elements@),
        Element::Table(t) => forall|i: int| 0 <= i < t.rows@.len() ==> row_whole(#[trigger] t.rows@[i]),
        Element::TabView(t) => forall|i: int| 0 <= i < t@.len() ==> tab_whole(#[trigger] t@[i]),
        Element::Anchor { elements, .. } => wholes(elements@),
        Element::List { items, .. } => forall|i: int| 0 <= i < items@.len() ==> item_whole(#[trigger] items@[i]),
        Element::DefinitionList(d) => forall|i: int| 0 <= i < d@.len() ==> def_whole(#[trigger] d@[i]),
        Element::Collapsible { elements, .. } => wholes(elements@),
        Element::Color { elements, .. } => wholes(elements@),
        Element::Include { elements, .. } => wholes(elements@),
        _ => true,
    }
}
pub open spec fn wholes(s: Seq<Element>) -> bool decreases s { forall|i: int| 0 <= i < s.len() ==> whole(#[trigger] s[i]) }
pub open spec fn row_whole(r: TableRow) -> bool decreases r { forall|i: int| 0 <= i < r.cells@.len() ==> cell_whole(#[trigger] r.cells@[i]) }
pub open spec fn cell_whole(c: TableCell) -> bool decreases c { wholes(c.elements@) }
pub open spec fn tab_whole(t: Tab) -> bool decreases t { wholes(t.elements@) }
pub open spec fn item_whole(t: ListItem) -> bool
    decreases t,
{ match t { ListItem::SubList { element } => whole(*element), ListItem::Elements { elements, .. } => wholes(elements@) } }
pub open spec fn def_whole(d: DefinitionListItem) -> bool decreases d { wholes(d.key_elements@) && wholes(d.value_elements@) }
impl<'t> Container<'t> {
//@fn src/tree/container.rs @ `impl<'t> Container<'t>` ctype r
//@spec
    ensures r == self.ctype,
//@end
//@fn src/tree/container.rs @ `impl<'t> Container<'t>` elements r
//@spec
    ensures r@ == self.elements@,
//@end
}
pub open spec fn flat(v: Seq<&'static str>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last()@ } }
//@assume elements are not nested 2^64 deep
pub proof fn ends_char(s: Seq<char>, c: char)
    ensures ends(s, seq![c]) == (s.len() > 0 && s.last() == c),
{ if s.len() > 0 { assert(s.skip(s.len() - 1) =~= seq![s.last()]); if ends(s, seq![c]) { assert(seq![s.last()][0] == seq![c][0]); } } }
#[verifier::external_body]
pub proof fn few(n: usize) ensures n < usize::MAX { }
#[verifier::external_body]
pub fn vf_map<'a>(m: &'a VariableMap<'_>) -> (r: &'a StrMap) ensures r@ == m@ { unimplemented!() }
#[verifier::external_body]
pub fn vf_blank_string(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
impl DateItem {
    #[verifier::external_body]
    pub fn format(&self) -> (r: Result<String, FmtError>) ensures match r { Ok(t) => date_text(*self) == Some(t@), Err(_) => date_text(*self).is_none() } { unimplemented!() }
}
impl Handle {
    //@assume the title of a page depends on its site and name only
    #[verifier::external_body]
    pub fn get_page_title(&self, site: &str, page: &str) -> (r: Option<String>)
        ensures match r { Some(t) => title(site@, page@) == Some(t@), None => title(site@, page@).is_none() },
    { unimplemented!() }
//@fn src/render/handle.rs @ `impl Handle` get_link_label r
//@sub `page_ref.to_string()` => `vf_page(page_ref)`
//@sub `LinkLabel::Text(ref text) => text` => `LinkLabel::Text(ref text) => vf_str(text)`
//@sub `LinkLabel::Url(Some(ref text)) => text` => `LinkLabel::Url(Some(ref text)) => vf_str(text)`
//@sub `LinkLocation::Url(url) => url` => `LinkLocation::Url(url) => vf_str(url)`
//@sub `&page_title` => `page_title.as_str()`
//@sub `f(label_text);` => `label_text.x_to_owned()`
//@sig
fn get_link_label(&self, site: &str, link: &LinkLocation, label: &LinkLabel) -> (r: String)
//@spec
    ensures r@ == label_text(site@, *link, *label),
//@end
}
// Display of a page reference.
pub fn vf_page(p: &PageRef) -> (r: String) ensures r@ == printed(opt(p.site), p.page@) {
    let mut t = vf_new();
    let _ = p.fmt(&mut t);
    proof { assert(Seq::<char>::empty() + printed(opt(p.site), p.page@) =~= printed(opt(p.site), p.page@)); }
    t
}
impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't> {
    pub open spec fn env(&self) -> Env { Env { prefix: flat(self.prefixes@), invisible: self.invisible > 0, vars: self.variables@, site: self.info.site@ } }
    // All but the text is as it was.
    pub open spec fn kept(&self, o: Self) -> bool {
        self.prefixes@ == o.prefixes@ && self.invisible == o.invisible && self.variables@ == o.variables@ && self.info == o.info && self.list_depths == o.list_depths
    }
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` new r
//@sub `String::with_capacity(wikitext_len)` => `vf_blank_string(wikitext_len)`
//@spec
    ensures r.output@ == Seq::<char>::empty(), r.env() == (Env { prefix: Seq::empty(), invisible: false, vars: Seq::empty(), site: info.site@ }),
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` buffer r
//@spec
    ensures *r == old(self).output, *final(self) == (TextContext { output: *final(r), ..*old(self) }),
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` info r
//@spec
    ensures r == self.info,
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` handle r
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` variables r
//@spec
    ensures *r == self.variables,
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` variables_mut r
//@spec
    ensures *r == old(self).variables, *final(self) == (TextContext { variables: *final(r), ..*old(self) }),
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` push_prefix
//@spec
    ensures flat(final(self).prefixes@) == flat(old(self).prefixes@) + prefix@,
//@post
    proof { assert(self.prefixes@.drop_last() =~= old(self).prefixes@); }
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` pop_prefix
//@spec
    ensures old(self).prefixes@.len() > 0 ==> final(self).prefixes@ == old(self).prefixes@.drop_last(),
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` invisible r
//@spec
    ensures r == (self.invisible > 0),
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` enable_invisible
//@spec
    ensures *final(self) == (TextContext { invisible: (old(self).invisible + 1) as usize, ..*old(self) }), old(self).invisible < usize::MAX,
//@pre
    proof { few(self.invisible); }
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` disable_invisible
//@spec
    requires old(self).invisible > 0,
    ensures *final(self) == (TextContext { invisible: (old(self).invisible - 1) as usize, ..*old(self) }),
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` push
//@sub `self.output.push($c)` => `self.output.x_push($c)`
//@spec
    ensures final(self).output@ == put(old(self).output@, old(self).env(), seq![ch]), final(self).kept(*old(self)),
//@post
    proof { assert(self.output@ =~= put(old(self).output@, old(self).env(), seq![ch])); }
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` push_str
//@sub `self.output.push(' ')` => `self.output.x_push(' ')`
//@sub `self.output.push_str(s)` => `self.output.x_push_str(s)`
//@sub `s.chars().count()` => `s.x_chars().len()`
//@spec
    ensures final(self).output@ == put(old(self).output@, old(self).env(), s@), final(self).kept(*old(self)),
//@loop 0 it
    invariant self.kept(*old(self)), self.output@ =~= old(self).output@ + blanks(it.index() as nat), it.seq().len() == chars,
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` add_newline
//@sub `self.output.push('\n')` => `self.output.x_push('\n')`
//@sub `for prefix in &self.prefixes` => `for prefix in self.prefixes.iter()`
//@sub `self.output.push_str(prefix)` => `self.output.x_push_str(prefix)`
//@spec
    ensures final(self).output@ == nl(old(self).output@, old(self).env()), final(self).kept(*old(self)),
//@loop 0 it
    invariant self.kept(*old(self)), self.output@ =~= old(self).output@.push('\n') + flat(old(self).prefixes@.take(it.index())),
        it.seq().len() == old(self).prefixes@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == old(self).prefixes@[i],
//@in 0
    proof { assert(old(self).prefixes@.take(it.index() + 1).drop_last() =~= old(self).prefixes@.take(it.index())); }
//@after 0
    proof { assert(old(self).prefixes@.take(old(self).prefixes@.len() as int) =~= old(self).prefixes@); }
//@end
//@fn src/render/text/context.rs @ `impl<'i, 'h, 'e, 't> TextContext<'i, 'h, 'e, 't>` ends_with_newline r
//@methods ends_with
//@spec
    ensures r == (self.output@.len() > 0 && self.output@.last() == '\n'),
//@pre
    proof { ends_char(self.output@, '\n'); }
//@end
}
pub open spec fn trim_nl(s: Seq<char>) -> Seq<char> { trim_nl_end(trim_nl_start(s)) }
pub open spec fn trim_nl_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == '\n' { trim_nl_start(s.skip(1)) } else { s } }
pub open spec fn trim_nl_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == '\n' { trim_nl_end(s.drop_last()) } else { s } }
#[verifier::external_body]
pub fn vf_remove(s: &mut String, n: usize) -> (r: char)
    requires n == 0, old(s)@.len() > 0,
    ensures final(s)@ == old(s)@.skip(1), r == old(s)@[0],
{ s.remove(n) }
#[verifier::external_body]
pub fn vf_pop(s: &mut String) -> (r: Option<char>)
    ensures old(s)@.len() > 0 ==> final(s)@ == old(s)@.drop_last(), old(s)@.len() == 0 ==> final(s)@ == old(s)@,
{ s.pop() }
pub fn vf_output(c: TextContext) -> (r: String) ensures r@ == c.output@ { c.output }
//@pin src/render/text/context.rs `fn from(ctx: TextContext<'i, 'h, 'e, 't>) -> String { ctx.output }`
//@pin src/render/text/context.rs `fn write_str(&mut self, s: &str) -> fmt::Result { self.push_str(s); Ok(()) }`
//@fn src/render/text/elements.rs render_elements
//@sub `for element in elements` => `for element in elements.iter()`
//@spec
    requires wholes(elements@),
    ensures final(ctx).output@ == plains(elements@, old(ctx).output@, old(ctx).env()), final(ctx).kept(*old(ctx)),
    decreases elements@,
//@loop 0 it
    invariant ctx.kept(*old(ctx)), ctx.output@ == plains(elements@.take(it.index()), old(ctx).output@, old(ctx).env()), wholes(elements@),
        it.seq().len() == elements@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i],
//@in 0
    proof { assert(elements@.take(it.index() + 1).drop_last() =~= elements@.take(it.index())); }
//@after 0
    proof { assert(elements@.take(elements@.len() as int) =~= elements@); }
//@end
//@fn src/render/text/elements.rs render_element
//@sub `ctx.handle().get_link_label(site, link, label, |label| { ctx.push_str(label); });` => `let vf_label = ctx.handle().get_link_label(site, link, label); ctx.push_str(vf_label.as_str());`
//@sub `for row in &table.rows` => `for row in table.rows.iter()`
//@sub `for cell in &row.cells` => `for cell in row.cells.iter()`
//@sub `if elements.is_empty() { continue; } render_elements(ctx, elements); ctx.add_newline();` => `if !elements.is_empty() { render_elements(ctx, elements); ctx.add_newline(); }`
//@sub `for item in items` => `for item in items.iter()`
//@sub `for DefinitionListItem { key_elements, value_elements, .. } in items {` => `for vf_item in items.iter() { let DefinitionListItem { key_elements, value_elements, .. } = vf_item;`
//@sub `for Tab { label, elements } in tabs {` => `for vf_tab in tabs.iter() { let Tab { label, elements } = vf_tab;`
//@sub `str_write!(ctx, "{}", datetime)` => `ctx.push_str(datetime.as_str())`
//@sub `str_write!(ctx, "<ERROR>")` => `ctx.push_str("<ERROR>")`
//@sub `ctx.info().site.as_ref()` => `vf_str(&ctx.info().site)`
//@sub `ctx.push_str(label)` => `ctx.push_str(vf_str(label))`
//@sub `ctx.push_str(text)` => `ctx.push_str(vf_str(text))`
//@sub `ctx.push_str(name)` => `ctx.push_str(vf_str(name))`
//@sub `ctx.push_str(contents)` => `ctx.push_str(vf_str(contents))`
//@sub `ctx.push_str(&value)` => `ctx.push_str(value.as_str())`
//@sub `str!(value)` => `value.x_to_owned()`
//@sub `str_write!(ctx, "[{name}]");` => `ctx.push_str("["); ctx.push_str(vf_str(name)); ctx.push_str("]");`
//@sub `format!("{{${name}}}")` => `vf_written(vf_str(name))`
//@sub `ctx.variables().get(name)` => `ctx.variables().get(vf_str(name))`
//@sub `ctx.variables_mut().push_scope(variables)` => `ctx.variables_mut().push_scope(vf_map(variables))`
//@spec
    requires whole(*element),
    ensures final(ctx).output@ == plain(*element, old(ctx).output@, old(ctx).env()), final(ctx).kept(*old(ctx)),
    decreases element,
//@pre
    let ghost o0 = ctx.output@;
    let ghost k = ctx.env();
    proof { reveal_strlit("["); reveal_strlit("]"); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); }
//@past 0 `ctx.variables_mut().pop_scope();`
    proof { assert(ctx.variables@ =~= v0); }
//@at 0 `ctx.variables_mut().push_scope`
    let ghost v0 = ctx.variables@;
//@loop 0 it
    invariant ctx.kept(*old(ctx)), it.seq().len() == table.rows@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == table.rows@[i],
        element is Table && element->Table_0 == *table, whole(*element), k == old(ctx).env(),
        ctx.output@ == rows(table.rows@.take(it.index()), fresh(o0, k), k),
//@in 0
    let ghost n = it.index();
    proof { assert(table.rows@.take(n + 1).drop_last() =~= table.rows@.take(n)); assert(row_whole(table.rows@[n])); assert(*row == table.rows@[n]); assert(decreases_to!(*element => table.rows@)); assert(decreases_to!(table.rows@ => table.rows@[n])); }
//@loop 1 it2
    invariant ctx.kept(*old(ctx)), it2.seq().len() == row.cells@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == row.cells@[i],
        element is Table && element->Table_0 == *table, whole(*element), k == old(ctx).env(), 0 <= n < table.rows@.len(), *row == table.rows@[n], row_whole(*row), decreases_to!(*element => *row),
        ctx.output@ == cells(row.cells@.take(it2.index()), rows(table.rows@.take(n), fresh(o0, k), k), k),
//@in 1
    proof {
        assert(row.cells@.take(it2.index() + 1).drop_last() =~= row.cells@.take(it2.index()));
        assert(cell_whole(row.cells@[it2.index() as int]));
        assert(decreases_to!(*row => row.cells@)); assert(decreases_to!(row.cells@ => row.cells@[it2.index() as int])); assert(decreases_to!(*element => *row));
    }
//@after 1
    proof { assert(row.cells@.take(row.cells@.len() as int) =~= row.cells@); }
//@after 0
    proof { assert(table.rows@.take(table.rows@.len() as int) =~= table.rows@); }
//@loop 2 it
    invariant ctx.kept(*old(ctx)), it.seq().len() == tabs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == tabs@[i],
        element is TabView && element->TabView_0 == *tabs, whole(*element), k == old(ctx).env(),
        ctx.output@ == tabbed(tabs@.take(it.index()), o0, k),
//@in 2
    proof { assert(tabs@.take(it.index() + 1).drop_last() =~= tabs@.take(it.index())); assert(*vf_tab == tabs@[it.index() as int]); assert(tab_whole(*vf_tab)); }
//@after 2
    proof { assert(tabs@.take(tabs@.len() as int) =~= tabs@); }
//@loop 3 it
    invariant ctx.kept(*old(ctx)), it.seq().len() == items@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == items@[i],
        element is List && element->List_items == *items, whole(*element), k == old(ctx).env(),
        ctx.output@ == listed(items@.take(it.index()), fresh(o0, k), k),
//@in 3
    proof { assert(items@.take(it.index() + 1).drop_last() =~= items@.take(it.index())); assert(item_whole(items@[it.index() as int])); }
//@after 3
    proof { assert(items@.take(items@.len() as int) =~= items@); }
//@loop 4 it
    invariant ctx.kept(*old(ctx)), it.seq().len() == items@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == items@[i],
        element is DefinitionList && element->DefinitionList_0 == *items, whole(*element), k == old(ctx).env(),
        ctx.output@ == defined(items@.take(it.index()), o0, k),
//@in 4
    proof { assert(items@.take(it.index() + 1).drop_last() =~= items@.take(it.index())); assert(def_whole(items@[it.index() as int])); }
//@after 4
    proof { assert(items@.take(items@.len() as int) =~= items@); }
//@loop 5 it
    invariant ctx.kept(*old(ctx)), it.seq().len() == amount@, k == old(ctx).env(), ctx.output@ == nls(o0, k, it.index() as nat),
//@end
pub fn vf_written(n: &str) -> (r: String) ensures r@ == seq!['{', '$'] + n@ + seq!['}'] {
    let mut t = vf_new();
    t.x_push('{'); t.x_push('$'); t.x_push_str(n); t.x_push('}');
    proof { assert(t@ =~= seq!['{', '$'] + n@ + seq!['}']); }
    t
}
impl TextRender {
//@fn src/render/text/mod.rs @ `impl TextRender` render_partial r
//@sub `table_of_contents: &[]` => `table_of_contents: vf_none()`
//@sub `footnotes: &[]` => `footnotes: vf_none()`
//@spec
    requires wholes(elements@),
    ensures r@ == document(elements@, page_info.site@),
//@end
//@fn src/render/text/mod.rs @ `impl TextRender` render_partial_direct r
//@sub `while ctx.buffer().starts_with('\n') { ctx.buffer().remove(0); }` => `while ctx.buffer().x_starts_with('\n') { vf_remove(ctx.buffer(), 0); }`
//@sub `while ctx.buffer().ends_with('\n') { ctx.buffer().pop(); }` => `while ctx.buffer().x_ends_with('\n') { vf_pop(ctx.buffer()); }`
//@sub `ctx.into()` => `vf_output(ctx)`
//@sig
fn render_partial_direct(&self, vf_p: RenderPartial) -> (r: String)
//@spec
    requires wholes(vf_p.elements@),
    ensures r@ == document(vf_p.elements@, vf_p.page_info.site@),
//@pre
    let RenderPartial { elements, page_info, settings, table_of_contents, footnotes, bibliographies, wikitext_len } = vf_p;
    let ghost o = plains(elements@, Seq::empty(), start(page_info.site@));
//@loop 0
    invariant trim_nl_start(ctx.output@) == trim_nl_start(o),
    decreases ctx.output@.len(),
//@in 0
    proof { starts_char(ctx.output@, '\n'); }
//@after 0
    proof { starts_char(ctx.output@, '\n'); }
//@loop 1
    invariant trim_nl_end(ctx.output@) == trim_nl_end(trim_nl_start(o)),
    decreases ctx.output@.len(),
//@in 1
    proof { ends_char(ctx.output@, '\n'); }
//@after 1
    proof { ends_char(ctx.output@, '\n'); }
//@end
//@fn src/render/text/mod.rs @ `impl Render for TextRender` render r
//@spec
    requires wholes(tree.elements@),
    ensures r@ == document(tree.elements@, page_info.site@),
//@sig
fn render(&self, tree: &SyntaxTree, page_info: &PageInfo, settings: &WikitextSettings) -> (r: String)
//@end
}
#[verifier::external_body]
pub fn vf_none<T>() -> (r: &'static [T]) ensures r@.len() == 0 { &[] }
pub open spec fn start(site: Seq<char>) -> Env { Env { prefix: Seq::empty(), invisible: false, vars: Seq::empty(), site } }
// The plain text of a document: that of its elements, without line ends around it.
pub open spec fn document(s: Seq<Element>, site: Seq<char>) -> Seq<char> { trim_nl(plains(s, Seq::empty(), start(site))) }
pub proof fn starts_char(s: Seq<char>, c: char)
    ensures starts(s, seq![c]) == (s.len() > 0 && s[0] == c),
{ if s.len() > 0 { assert(s.take(1) =~= seq![s[0]]); if starts(s, seq![c]) { assert(seq![s[0]][0] == seq![c][0]); } } }
