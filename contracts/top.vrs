// C07, C06: what is put together when everything has been gathered.
//@import paragraphs depth
//@use fmt
//@type src/parsing/mod.rs Incrementer
//@end
// -- what an entry of a table of contents says: how deep it is, what it links to, what it is called --
pub open spec fn url_of(l: LinkLocation) -> Seq<char> { match l { LinkLocation::Url(u) => u@, _ => Seq::empty() } }
pub open spec fn text_of(l: LinkLabel) -> Seq<char> { match l { LinkLabel::Text(t) => t@, _ => Seq::empty() } }
pub open spec fn entries<'t>(e: Element<'t>, d: nat) -> Seq<(nat, Seq<char>, Seq<char>)>
    decreases e,
{ match e { Element::List { items, .. } => entries_all(items@, d), _ => Seq::empty() } }
pub open spec fn entries_all<'t>(v: Seq<ListItem<'t>>, d: nat) -> Seq<(nat, Seq<char>, Seq<char>)>
    decreases v,
{ if v.len() == 0 { Seq::empty() } else { entries_all(v.drop_last(), d) + entry(v.last(), d) } }
pub open spec fn entry<'t>(i: ListItem<'t>, d: nat) -> Seq<(nat, Seq<char>, Seq<char>)>
    decreases i,
{
    match i {
        ListItem::SubList { element } => entries(*element, d + 1),
        ListItem::Elements { elements, .. } => match elements@[0] { Element::Link { link, label, .. } => seq![(d, url_of(link), text_of(label))], _ => Seq::empty() },
    }
}
// -- the lists it is made of are those of the headings --
pub open spec fn count(v: Seq<DepthItem<(), String>>) -> nat { flat_list(v, 0, ()).len() }
pub open spec fn reads<'t>(e: Element<'t>, v: Seq<DepthItem<(), String>>, n: nat) -> bool
    decreases v, 1int,
{ match e { Element::List { ltype, items, attributes } => ltype is Bullet && attributes@ == Map::<Seq<char>, Seq<char>>::empty() && reads_all(items@, v, n), _ => false } }
pub open spec fn reads_all<'t>(i: Seq<ListItem<'t>>, v: Seq<DepthItem<(), String>>, n: nat) -> bool
    decreases v, 0int,
{ i.len() == v.len() && (v.len() > 0 ==> reads_all(i.drop_last(), v.drop_last(), n) && reads_one(i.last(), v.last(), n + count(v.drop_last()))) }
pub open spec fn reads_one<'t>(i: ListItem<'t>, x: DepthItem<(), String>, n: nat) -> bool
    decreases x,
{
    match (i, x) {
        (ListItem::SubList { element }, DepthItem::List(_, v)) => reads(*element, v@, n),
        (ListItem::Elements { elements, attributes }, DepthItem::Item(name)) => attributes@ == Map::<Seq<char>, Seq<char>>::empty() && elements@.len() == 1 && match elements@[0] {
            Element::Link { ltype, link, extra, label, target } => ltype is TableOfContents && extra.is_none() && target.is_none() && url_of(link) == "#toc"@ + dec(n) && text_of(label) == name@,
            _ => false,
        },
        _ => false,
    }
}
// the n-th heading, from where counting starts
pub open spec fn numbered(s: Seq<(nat, (), String)>, n: nat) -> Seq<(nat, Seq<char>, Seq<char>)> { Seq::new(s.len(), |i: int| (s[i].0, "#toc"@ + dec((n + i) as nat), s[i].2@)) }
pub proof fn numbered_add(a: Seq<(nat, (), String)>, b: Seq<(nat, (), String)>, n: nat)
    ensures numbered(a + b, n) == numbered(a, n) + numbered(b, n + a.len()),
{ assert(numbered(a + b, n) =~= numbered(a, n) + numbered(b, n + a.len())); }
pub proof fn unfold(x: DepthItem<(), String>, d: nat)
    ensures flat_item(x, d, ()) == match x { DepthItem::Item(t) => seq![(d, (), t)], DepthItem::List(_, v) => flat_list(v@, d + 1, ()) },
{ match x { DepthItem::List(k, _) => { assert(k == ()); } _ => {} } }
pub proof fn flat_len(v: Seq<DepthItem<(), String>>, d: nat, k: nat)
    ensures flat_list(v, d, ()).len() == flat_list(v, k, ()).len(),
    decreases v, 0int,
{
    if v.len() > 0 {
        flat_len(v.drop_last(), d, k);
        match v.last() { DepthItem::List(u, w) => { assert(decreases_to!(v => v.last())); unfold(v.last(), d); unfold(v.last(), k); flat_len(w@, d + 1, k + 1); } DepthItem::Item(t) => { unfold(v.last(), d); unfold(v.last(), k); } }
    }
}
pub proof fn entries_read<'t>(e: Element<'t>, v: Seq<DepthItem<(), String>>, n: nat, d: nat)
    requires reads(e, v, n),
    ensures entries(e, d) == numbered(flat_list(v, d, ()), n),
    decreases v, 1int,
{ match e { Element::List { items, .. } => entries_all_read(items@, v, n, d), _ => {} } }
pub proof fn entries_all_read<'t>(i: Seq<ListItem<'t>>, v: Seq<DepthItem<(), String>>, n: nat, d: nat)
    requires reads_all(i, v, n),
    ensures entries_all(i, d) == numbered(flat_list(v, d, ()), n),
    decreases v, 0int,
{
    if v.len() == 0 { assert(numbered(flat_list(v, d, ()), n) =~= Seq::empty()); } else {
        let m = n + count(v.drop_last());
        entries_all_read(i.drop_last(), v.drop_last(), n, d);
        flat_len(v.drop_last(), 0, d);
        numbered_add(flat_list(v.drop_last(), d, ()), flat_item(v.last(), d, ()), n);
        assert(reads_one(i.last(), v.last(), m));
        assert(v.last() is Item || v.last() is List);
        match (i.last(), v.last()) {
            (ListItem::SubList { element }, DepthItem::List(u, w)) => { unfold(v.last(), d); unfold(v.last(), 0); flat_len(w@, d + 1, 0); assert(decreases_to!(v => v.last())); entries_read(*element, w@, m, d + 1); }
            _ => { unfold(v.last(), d); }
        }
        assert(entry(i.last(), d) =~= numbered(flat_item(v.last(), d, ()), m));
    }
}
impl Incrementer {
//@fn src/parsing/mod.rs @ `impl NextIndex<TableOfContentsIndex> for Incrementer` next r
//@spec
    requires old(self).0 < usize::MAX,
    ensures r == old(self).0, final(self).0 == r + 1,
//@end
}
//@fn src/parsing/mod.rs build_toc_list_element r
//@fmt
//@sub `let build_item = |item| $BODY; let items = list.into_iter().map(build_item).collect();` => `let mut items: Vec<ListItem<'static>> = Vec::new(); for item in list { let vf_y = $BODY; items.push(vf_y); }`
//@spec
    requires old(incr).0 + count(list@) <= usize::MAX,
    ensures reads(r, list@, old(incr).0 as nat), final(incr).0 == old(incr).0 + count(list@),
    decreases list@,
//@pre
    let ghost n0 = incr.0 as nat;
    proof { assert(list@.take(0) =~= Seq::empty()); }
//@loop 0 it
    invariant
        it.seq() == list@, n0 == old(incr).0, n0 + count(list@) <= usize::MAX,
        reads_all(items@, list@.take(it.index()), n0), incr.0 == n0 + count(list@.take(it.index())),
//@in 0
    let ghost k = it.index();
    let ghost i0 = items@;
    proof {
        let t = list@.take(k + 1);
        assert(t.drop_last() =~= list@.take(k));
        assert(item == list@[k]);
        assert(decreases_to!(list@ => list@[k]));
        unfold(list@[k], 0); match list@[k] { DepthItem::List(u, w) => { flat_len(w@, 1, 0); } _ => {} }
        count_mono(list@, k + 1);
    }
//@tail 0
    proof {
        let t = list@.take(k + 1);
        assert(items@.drop_last() =~= i0);
        assert(t.drop_last() =~= list@.take(k));
        assert(t.last() == list@[k]);
        assert(reads_one(items@.last(), t.last(), n0 + count(t.drop_last())));
        assert(reads_all(items@, t, n0));
    }
//@after 0
    proof { assert(list@.take(list@.len() as int) =~= list@); }
//@end
pub proof fn count_mono(v: Seq<DepthItem<(), String>>, k: int)
    requires 0 <= k <= v.len(),
    ensures count(v.take(k)) <= count(v),
    decreases v.len(),
{
    if k == v.len() { assert(v.take(k) =~= v); } else {
        count_mono(v.drop_last(), k);
        assert(v.drop_last().take(k) =~= v.take(k));
    }
}

// -- the parser that starts --
//@use tokenization
//@use unstructured
//@type src/tree/mod.rs SyntaxTree
//@end
//@type src/parsing/outcome.rs ParseOutcome
//@end
pub struct NoClosing { x: u8 }
impl<'r, 't> Closing<'r, 't> for NoClosing {
    #[verifier::external_body]
    fn call(&mut self, parser: &mut Parser<'r, 't>) -> (r: Result<bool, ParseError>) { unimplemented!() }
}
//@pin src/parsing/paragraph/mod.rs `pub const NO_CLOSE_CONDITION: Option<CloseConditionFn> = None;`
impl<'t> Tokenization<'t> {
//@fn src/tokenizer.rs @ `impl<'t> Tokenization<'t>` tokens r
//@spec
    ensures r@ == self.tokens@,
//@end
//@fn src/tokenizer.rs @ `impl<'t> Tokenization<'t>` full_text r
//@spec
    ensures r == self.full_text,
//@end
}
//@pin src/parsing/parser.rs `fn make_shared_vec<T>() -> Rc<RefCell<Vec<T>>> { Rc::new(RefCell::new(Vec::new())) }`
impl<'r, 't> Parser<'r, 't> {
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` new r
//@sub `tokenization.tokens().split_first().expect($m)` => `vf_split_first(tokenization.tokens()).expect($m)`
//@sub `make_shared_vec()` => `Vec::new()`
//@sub `Rc::new(RefCell::new(BibliographyList::new()))` => `BibliographyList::new()`
//@sub `RULE_PAGE` => `vf_page_rule()`
//@spec
    requires tokenization.wf(),
    ensures
        r.wf(), r.ahead() == tokenization.tokens@, r.full_text == tokenization.full_text, r.page_info == page_info, r.settings == settings,
        r.depth == 0, r.accepts_partial is None, r.outer_partial is None, !r.in_footnote, !r.has_footnote_block,
        r.table_of_contents@.len() == 0, r.html_blocks@.len() == 0, r.code_blocks@.len() == 0, r.footnotes@.len() == 0, r.bibliographies.0@.len() == 0,
//@at 0 `Parser {`
    proof { assert(seq![*current] + remaining@ =~= tokenization.tokens@); assert(forall|i: int| 0 <= i < remaining@.len() ==> #[trigger] remaining@[i] == tokenization.tokens@[i + 1]); }
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` remove_bibliographies r
//@sub `mem::take(&mut self.bibliographies.borrow_mut())` => `BibliographyList(vf_take(&mut self.bibliographies.0))`
//@spec
    ensures r.0@ == old(self).bibliographies.0@, *final(self) == (Parser { bibliographies: final(self).bibliographies, ..*old(self) }),
//@end
}
#[verifier::external_body]
pub fn vf_page_rule() -> (r: Rule) { unimplemented!() }
pub open spec fn gathered(e: Seq<Element>) -> bool { exists|p: Seq<Piece>| all_show(e, p) && sound(p) }
//@fn src/parsing/mod.rs parse_internal r
//@sub `gather_paragraphs(&mut parser, RULE_PAGE, NO_CLOSE_CONDITION)` => `gather_paragraphs(&mut parser, vf_page_rule(), None::<NoClosing>)`
//@spec
    requires tokenization.wf(),
    ensures
        shallow(r.table_of_contents_depths@),
        r.result.is_ok() ==> gathered(r.result->Ok_0.item@) && no_partial(r.result->Ok_0.item@),
        // only for nesting too deeply can everything be lost
        r.result.is_err() ==> r.result->Err_0.kind == ParseErrorKind::RecursionDepthExceeded,
//@end

impl<T> ParseOutcome<T> {
//@fn src/parsing/outcome.rs @ `impl<T> ParseOutcome<T>` new r
//@sub `errors: errors.into()` => `errors`
//@sig
pub fn new(value: T, errors: Vec<ParseError>) -> (r: Self)
//@spec
    ensures r.value == value, r.errors == errors,
//@end
}
impl<'t> SyntaxTree<'t> {
//@fn src/tree/mod.rs @ `impl<'t> SyntaxTree<'t>` from_element_result r
//@spec
    ensures
        r.errors == errors, r.value.elements == elements, r.value.html_blocks == vf_p2.0, r.value.code_blocks == vf_p2.1,
        r.value.table_of_contents == table_of_contents, r.value.footnotes == footnotes, r.value.bibliographies == bibliographies, r.value.wikitext_len == wikitext_len,
//@sig
pub fn from_element_result(elements: Vec<Element<'t>>, errors: Vec<ParseError>, vf_p2: (Vec<Cow<'t, str>>, Vec<CodeBlock<'t>>), table_of_contents: Vec<Element<'t>>,
    footnotes: Vec<Vec<Element<'t>>>, bibliographies: BibliographyList<'t>, wikitext_len: usize) -> (r: ParseOutcome<SyntaxTree<'t>>)
//@pre
    let (html_blocks, code_blocks) = vf_p2;
//@end
}
pub open spec fn listing<'t>(v: Seq<Element<'t>>) -> Seq<(nat, Seq<char>, Seq<char>)>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else { listing(v.drop_last()) + entries(v.last(), 0) } }
// The entries of a table of contents: the headings, in order, numbered from 0, as deep as their level says.
pub open spec fn table(t: Seq<(usize, String)>) -> Seq<(nat, Seq<char>, Seq<char>)> { Seq::new(t.len(), |i: int| (t[i].0 as nat, "#toc"@ + dec(i as nat), t[i].1@)) }
pub open spec fn units(t: Seq<(usize, String)>) -> Seq<(usize, (), String)> { t.map_values(|x: (usize, String)| (x.0, (), x.1)) }
pub open spec fn is_footnote_block(e: Element) -> bool { match e { Element::FootnoteBlock { title, hide } => title.is_none() && !hide, _ => false } }
// What a parse makes of what was gathered.
pub open spec fn finished<'r, 't>(o: ParseOutcome<SyntaxTree<'t>>, u: UnstructuredParseResult<'r, 't>, t: Tokenization<'t>) -> bool {
    &&& o.value.html_blocks == u.html_blocks && o.value.code_blocks == u.code_blocks
    &&& o.value.wikitext_len == len8(t.full_text.text@)
    &&& match u.result {
        Ok(s) => {
            // the elements are those gathered, and a footnote block if there was none
            &&& o.value.elements@ == if u.has_footnote_block { s.item@ } else { s.item@.push(o.value.elements@.last()) }
            &&& !u.has_footnote_block ==> is_footnote_block(o.value.elements@.last())
            &&& o.errors == s.errors
            // the table of contents is that of the recorded headings, in one list
            &&& listing(o.value.table_of_contents@) == table(u.table_of_contents_depths@)
            &&& o.value.table_of_contents@.len() <= 1
            &&& o.value.footnotes == u.footnotes && o.value.bibliographies == u.bibliographies
        }
        Err(e) => {
            // or the page as it was written, and why
            &&& o.value.elements@.len() == 1 && o.value.elements@[0] is Text && o.value.elements@[0]->Text_0@ == t.full_text.text@
            &&& o.errors@ =~= seq![e]
            &&& o.value.table_of_contents@.len() == 0 && o.value.footnotes@.len() == 0
        }
    }
}
pub proof fn listing_push<'t>(v: Seq<Element<'t>>, e: Element<'t>)
    ensures listing(v.push(e)) == listing(v) + entries(e, 0),
{ assert(v.push(e).drop_last() =~= v); }
pub proof fn trees_next(v: Seq<((), Vec<DepthItem<(), String>>)>, k: int)
    requires 0 <= k < v.len(),
    ensures flat_trees(v.take(k + 1)) == flat_trees(v.take(k)) + flat_list(v[k].1@, 0, ()), flat_trees(v.take(k)).len() + count(v[k].1@) <= flat_trees(v).len(),
{
    assert(v.take(k + 1).drop_last() =~= v.take(k));
    assert(v.take(k + 1).last() == v[k]);
    assert(v[k].0 == ());
    trees_mono(v, k + 1);
}
pub proof fn trees_mono(v: Seq<((), Vec<DepthItem<(), String>>)>, k: int)
    requires 0 <= k <= v.len(),
    ensures flat_trees(v.take(k)).len() <= flat_trees(v).len(),
    decreases v.len(),
{
    if k == v.len() { assert(v.take(k) =~= v); } else {
        trees_mono(v.drop_last(), k);
        assert(v.drop_last().take(k) =~= v.take(k));
    }
}
//@assume == on () is equality
#[verifier::external_body]
pub proof fn unit_eq()
    ensures
        <() as vstd::std_specs::cmp::PartialEqSpec<()>>::obeys_eq_spec(),
        forall|a: (), b: ()| #[trigger] <() as vstd::std_specs::cmp::PartialEqSpec<()>>::eq_spec(&a, &b) == (a == b),
{ }
//@fn src/parsing/mod.rs parse r
//@sub `text!(wikitext)` => `Element::Text(Cow::Borrowed(wikitext))`
//@sub `let UnstructuredParseResult { $F } = parse_internal($A);` => `let vf_u = parse_internal($A); let ghost u0 = vf_u; let UnstructuredParseResult { $F } = vf_u;`
//@sub `SyntaxTree::from_element_result($A)` => `{ let ghost vf_es = elements@; let vf_o = SyntaxTree::from_element_result($A); proof { assert(vf_o.value.elements@ == vf_es); if u0.result is Err { assert(vf_es.len() == 1); assert(vf_es[0] is Text); assert(vf_es[0]->Text_0@ == tokenization.full_text.text@); } assert(finished(vf_o, u0, *tokenization)); } vf_o }`
//@sub `let table_of_contents_depths = table_of_contents_depths.into_iter().map(|(depth, contents)| $T);` => `let vf_depths = table_of_contents_depths; let mut table_of_contents_depths: Vec<(usize, (), String)> = Vec::new(); for vf_d in vf_depths { let (depth, contents) = vf_d; table_of_contents_depths.push($T); }`
//@sub `let table_of_contents = process_depths((), table_of_contents_depths).into_iter().map(|(_, items)| $T).collect::<Vec<_>>();` => `let vf_trees = process_depths((), table_of_contents_depths); let mut table_of_contents: Vec<Element<'t>> = Vec::new(); for vf_t in vf_trees { let (_, items) = vf_t; let vf_y = $T; table_of_contents.push(vf_y); }`
//@spec
    requires tokenization.wf(),
    ensures exists|u: UnstructuredParseResult| call_ensures(parse_internal, (page_info, settings, tokenization), u) && finished(r, u, *tokenization),
//@loop 0 it
    invariant
        it.seq() == vf_depths@, vf_depths@ == u0.table_of_contents_depths@,
        table_of_contents_depths@ =~= units(vf_depths@.take(it.index())),
//@after 0
    proof { unit_eq(); assert(vf_depths@.take(vf_depths@.len() as int) =~= vf_depths@); }
//@outside 1
    let ghost flat = flat_trees(vf_trees@);
    proof {
        assert(u0.table_of_contents_depths.len() == u0.table_of_contents_depths@.len());
        assert(vf_trees@.take(0) =~= Seq::empty());
        assert(numbered(Seq::empty(), 0) =~= Seq::empty());
        assert(vf_trees@.len() <= 1) by { if vf_trees@.len() > 1 { assert(vf_trees@[0].0 == vf_trees@[0int + 1].0); } }
    }
//@loop 1 jt
    invariant
        jt.seq() == vf_trees@, flat == flat_trees(vf_trees@), flat.len() <= usize::MAX,
        incrementer.0 == flat_trees(vf_trees@.take(jt.index())).len(),
        table_of_contents@.len() == jt.index(),
        listing(table_of_contents@) == numbered(flat_trees(vf_trees@.take(jt.index())), 0),
//@in 1
    let ghost k = jt.index();
    let ghost t0 = table_of_contents@;
    proof { trees_next(vf_trees@, k); assert(vf_t == vf_trees@[k]); }
//@tail 1
    proof {
        let e = table_of_contents@.last();
        assert(table_of_contents@ =~= t0.push(e));
        listing_push(t0, e);
        numbered_add(flat_trees(vf_trees@.take(k)), flat_list(vf_trees@[k].1@, 0, ()), 0);
        entries_read(e, vf_trees@[k].1@, flat_trees(vf_trees@.take(k)).len(), 0);
    }
//@after 1
    proof {
        assert(vf_trees@.take(vf_trees@.len() as int) =~= vf_trees@);
        assert(listing(table_of_contents@) =~= table(u0.table_of_contents_depths@));
    }
//@end
