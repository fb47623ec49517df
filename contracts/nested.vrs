// C14, C09, C01: the rules for lists.
//@import simple depth paragraphs
//@type src/parsing/rule/impls/list.rs RULE_LIST
//@sub `try_consume_fn,` => `try_consume_fn: Fun::List,`
//@end
//@type src/parsing/rule/impls/list.rs MAX_LIST_DEPTH
//@end
//@fn src/parsing/rule/impls/list.rs get_list_type r
//@spec
    ensures r == bullet(token),
//@end
pub open spec fn bullet(t: Token) -> Option<ListType> { match t { Token::BulletItem => Some(ListType::Bullet), Token::NumberedItem => Some(ListType::Numbered), _ => None } }
//@assume comparing list types for equality compares them
#[verifier::external_body]
pub proof fn list_eq()
    ensures
        <ListType as vstd::std_specs::cmp::PartialEqSpec<ListType>>::obeys_eq_spec(),
        forall|a: ListType, b: ListType| #[trigger] <ListType as vstd::std_specs::cmp::PartialEqSpec<ListType>>::eq_spec(&a, &b) == (a == b),
{ }
pub type Lines<'t> = Seq<(usize, ListType, Vec<Element<'t>>)>;
pub type Nested<'t> = DepthItem<ListType, Vec<Element<'t>>>;
// A list element is what a nested list says.
pub open spec fn is_item<'t>(x: ListItem<'t>, d: Nested<'t>) -> bool
    decreases d,
{
    match d {
        DepthItem::Item(t) => match x { ListItem::Elements { elements, attributes } => elements == t && attributes@ == Map::<Seq<char>, Seq<char>>::empty(), _ => false },
        DepthItem::List(k, w) => match x {
            ListItem::SubList { element } => match *element { Element::List { ltype, items, attributes } => ltype == k && is_items(items@, w@) && attributes@ == Map::<Seq<char>, Seq<char>>::empty(), _ => false },
            _ => false,
        },
    }
}
pub open spec fn is_items<'t>(x: Seq<ListItem<'t>>, v: Seq<Nested<'t>>) -> bool
    decreases v,
{ x.len() == v.len() && (v.len() == 0 || (is_items(x.drop_last(), v.drop_last()) && is_item(x.last(), v.last()))) }
pub open spec fn is_list<'t>(e: Element<'t>, k: ListType, v: Seq<Nested<'t>>) -> bool {
    match e { Element::List { ltype, items, attributes } => ltype == k && is_items(items@, v) && attributes@ == Map::<Seq<char>, Seq<char>>::empty(), _ => false }
}
//@fn src/parsing/rule/impls/list.rs build_list_element r
//@sub `let build_item = |item| match item { $BODY };` => ``
//@sub `let items = list.into_iter().map(build_item).collect();` => `let mut items: Vec<ListItem<'t>> = Vec::new(); for vf_i in list { items.push(vf_build_item(vf_i)); }`
//@sig
fn build_list_element<'t>(top_ltype: ListType, list: Vec<Nested<'t>>) -> (r: Element<'t>)
//@spec
    ensures is_list(r, top_ltype, list@),
    decreases list, 1int,
//@pre
    let ghost l0 = list;
    let ghost v = list@;
//@loop 0 it
    invariant
        it.seq() == v, v == l0@, is_items(items@, v.take(it.index())),
//@in 0
    let ghost i0 = items@;
    proof { assert(vf_i == v[it.index()]); assert(decreases_to!(l0 => v[it.index()])); }
//@tail 0
    proof {
        assert(v.take(it.index() + 1).drop_last() =~= v.take(it.index()));
        assert(items@.drop_last() =~= i0);
    }
//@after 0
    proof { assert(v.take(v.len() as int) =~= v); }
//@end
//@fn src/parsing/rule/impls/list.rs build_list_element r
//@rename vf_build_item
//@sub `let build_item = |item| match item { $BODY }; let items = list.into_iter().map(build_item).collect(); let attributes = AttributeMap::new(); Element::List { ltype: top_ltype, items, attributes, }` => `match item { $BODY }`
//@sig
fn vf_build_item<'t>(item: Nested<'t>) -> (r: ListItem<'t>)
//@spec
    ensures is_item(r, item),
    decreases item, 0int,
//@end
// A line of a list: from its s-th token on, the parser has an indentation, a bullet, and a space.
pub open spec fn line_at<'r, 't>(p: &Parser<'r, 't>, s: int, d: (usize, ListType, Vec<Element<'t>>)) -> bool {
    let a = p.ahead();
    &&& 0 <= s && d.0 <= MAX_LIST_DEPTH && no_partial(d.2@)
    &&& if s < a.len() && a[s].token is Whitespace {
            s + 2 < a.len() && d.0 == len8(a[s].slice@) && bullet(a[s + 1].token) == Some(d.1) && a[s + 2].token is Whitespace
        } else {
            s + 1 < a.len() && d.0 == 0 && bullet(a[s].token) == Some(d.1) && a[s + 1].token is Whitespace
        }
}
pub open spec fn lines_at<'r, 't>(p: &Parser<'r, 't>, lines: Lines<'t>, at: Seq<int>, end: int) -> bool {
    &&& at.len() == lines.len()
    &&& forall|k: int| 0 <= k < lines.len() ==> line_at(p, #[trigger] at[k], lines[k]) && at[k] < end
    &&& forall|j: int, k: int| 0 <= j < k < lines.len() ==> #[trigger] at[j] < #[trigger] at[k]
}
pub open spec fn is_lists<'t>(e: Seq<Element<'t>>, t: Seq<(ListType, Vec<Nested<'t>>)>) -> bool {
    e.len() == t.len() && forall|k: int| 0 <= k < t.len() ==> is_list(#[trigger] e[k], t[k].0, t[k].1@)
}
pub open spec fn nests<'t>(lines: Lines<'t>, t: Seq<(ListType, Vec<Nested<'t>>)>) -> bool { flat_trees(t) == as_flat(lines) && tight_trees(t) }
// The lists that the lines make, nested just as deep as the lines say.
pub open spec fn listing<'r, 't>(p: &Parser<'r, 't>, lines: Lines<'t>, e: Seq<Element<'t>>) -> bool {
    &&& lines.len() > 0
    &&& exists|at: Seq<int>, end: int| lines_at(p, lines, at, end)
    &&& exists|t: Seq<(ListType, Vec<Nested<'t>>)>| #[trigger] is_lists(e, t) && nests(lines, t)
}
//@fn src/parsing/rule/impls/list.rs try_consume_fn r
//@rename list
//@sub `spaces.len()` => `spaces.x_len()`
//@sub `parser.look_ahead(0).map(|next| next.token)` => `match parser.look_ahead(0) { Some(next) => Some(next.token), None => None }`
//@sub `collect_consume($x)?.chain($y)` => `(collect_consume($x)?).chain($y)`
//@sub `let elements: Vec<Element> = depth_lists.into_iter().map(|(ltype, depth_list)| $X).collect();` => `let mut elements: Vec<Element<'t>> = Vec::new(); for vf_l in depth_lists { let (ltype, depth_list) = vf_l; let vf_e = $X; elements.push(vf_e); }`
//@macros
//@spec
    requires old(parser).starts(RULE_LIST),
    ensures final(parser).ruled(old(parser), r),
        r.is_ok() ==> !r->Ok_0.paragraph_safe && exists|lines: Lines<'t>| #[trigger] listing(old(parser), lines, r->Ok_0.item@),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    let ghost mut at: Seq<int> = Seq::empty();
    proof { ran_refl(&p0); list_eq(); }
//@loop 0
    invariant
        *old(parser) == p0, p0.starts(RULE_LIST), parser.ran(&p0), parser.wf(), parser.depth == p0.depth, parser.accepts_partial is None,
        !paragraph_safe,
        lines_at(&p0, depths@, at, p0.remaining@.len() - parser.remaining@.len()),
    decreases parser.remaining@.len(),
//@in 0
    broadcast use running;
    let ghost p1 = *parser;
    let ghost d1 = depths@;
    let ghost s = p0.remaining@.len() - p1.remaining@.len();
    proof {
        ran_refl(&p1);
        assert(p1.ahead()[0] == p0.ahead()[s]);
        if p1.remaining@.len() > 0 { assert(p1.ahead()[1] == p0.ahead()[s + 1]); }
        if p1.remaining@.len() > 1 { assert(p1.ahead()[2] == p0.ahead()[s + 2]); }
        assert(p0.ahead().len() == p0.remaining@.len() + 1);
    }
//@tail 0
    proof {
        let d = depths@.last();
        assert(depths@ =~= d1.push(d));
        assert(line_at(&p0, s, d));
        let a1 = at;
        at = at.push(s);
        assert forall|k: int| 0 <= k < depths@.len() implies line_at(&p0, #[trigger] at[k], depths@[k]) && at[k] < p0.remaining@.len() - parser.remaining@.len() by {
            if k < d1.len() { assert(at[k] == a1[k]); assert(depths@[k] == d1[k]); }
        }
        assert forall|j: int, k: int| 0 <= j < k < depths@.len() implies #[trigger] at[j] < #[trigger] at[k] by {
            assert(at[j] == a1[j]);
            if k < d1.len() { assert(at[k] == a1[k]); }
        }
    }
//@after 0
    let ghost lines = depths@;
    proof {
        assert(lines_at(&p0, lines, at, p0.remaining@.len() - parser.remaining@.len()));
        assert forall|i: int| 0 <= i < lines.len() implies (#[trigger] lines[i]).0 < usize::MAX - 1 by { assert(line_at(&p0, at[i], lines[i])); }
    }
//@outside 1
    let ghost t = depth_lists@;
//@loop 1 jt
    invariant
        jt.seq() == t, elements@.len() == jt.index(),
        forall|k: int| 0 <= k < jt.index() ==> is_list(#[trigger] elements@[k], t[k].0, t[k].1@),
//@in 1
    let ghost e1 = elements@;
    proof { assert(vf_l == t[jt.index()]); }
//@tail 1
    proof { assert forall|k: int| 0 <= k < elements@.len() implies is_list(#[trigger] elements@[k], t[k].0, t[k].1@) by { if k < e1.len() { assert(elements@[k] == e1[k]); } } }
//@after 1
    proof { assert(is_lists(elements@, t) && nests(lines, t)); assert(listing(&p0, lines, elements@)); }
//@end
// -- quotes --
//@type src/parsing/rule/impls/blockquote.rs RULE_BLOCKQUOTE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Blockquote,`
//@end
//@type src/parsing/rule/impls/blockquote.rs MAX_BLOCKQUOTE_DEPTH
//@end
pub type Line<'t> = (Vec<Element<'t>>, bool);
pub type Quoted<'t> = DepthItem<(), Line<'t>>;
pub open spec fn put_all<'t>(g: Gathered<'t>, e: Seq<Element<'t>>, safe: bool) -> Gathered<'t>
    decreases e.len(),
{ if e.len() == 0 { g } else { put_all(g, e.drop_last(), safe).put(e.last(), safe) } }
// without the line break it ends in, if any
pub open spec fn unbroken<'t>(g: Gathered<'t>) -> Gathered<'t> { if g.open.len() > 0 && g.open.last() is LineBreak { Gathered { done: g.done, open: g.open.drop_last() } } else { g } }
// The lines of a quote, gathered into paragraphs, around the quotes in it.
pub open spec fn gathered<'t>(v: Seq<Quoted<'t>>, subs: Seq<Element<'t>>) -> Gathered<'t>
    decreases v.len(),
{
    if v.len() == 0 { Gathered::start() } else {
        let g = gathered(v.drop_last(), subs.drop_last());
        match v.last() { DepthItem::Item(x) => put_all(g, x.0@, x.1), DepthItem::List(_, _) => unbroken(g).put(subs.last(), false) }
    }
}
pub open spec fn encloses<'t>(e: Element<'t>, p: Seq<Piece<'t>>) -> bool {
    match e { Element::Container(c) => c.ctype is Blockquote && c.attributes@ == Map::<Seq<char>, Seq<char>>::empty() && all_show(c.elements@, p), _ => false }
}
pub open spec fn is_quote<'t>(e: Element<'t>, v: Seq<Quoted<'t>>) -> bool
    decreases v, 1int,
{ exists|subs: Seq<Element<'t>>| quotes(subs, v) && encloses(e, unbroken(#[trigger] gathered(v, subs)).close().done) }
pub open spec fn quotes<'t>(subs: Seq<Element<'t>>, v: Seq<Quoted<'t>>) -> bool
    decreases v, 0int,
{ subs.len() == v.len() && (v.len() == 0 || (quotes(subs.drop_last(), v.drop_last()) && match v.last() { DepthItem::List(_, w) => is_quote(subs.last(), w@), _ => true })) }
pub proof fn fold_quote<'t>(e: Element<'t>, v: Seq<Quoted<'t>>, subs: Seq<Element<'t>>)
    requires quotes(subs, v), encloses(e, unbroken(gathered(v, subs)).close().done),
    ensures is_quote(e, v),
{ reveal_with_fuel(is_quote, 2); reveal_with_fuel(quotes, 2); }
//@fn src/parsing/rule/impls/blockquote.rs build_blockquote_element r
//@sub `Element::Container($X)` => `let vf_e = Element::Container($X); vf_e`
//@sig
fn build_blockquote_element<'t>(list: Vec<Quoted<'t>>) -> (r: Element<'t>)
//@spec
    ensures is_quote(r, list@),
    decreases list,
//@pre
    let ghost l0 = list;
    let ghost v = list@;
    let ghost mut subs: Seq<Element<'t>> = Seq::empty();
//@loop 0 it
    invariant
        it.seq() == v, v == l0@, quotes(subs, v.take(it.index())), stack.is(gathered(v.take(it.index()), subs)), stack.errors@.len() == 0,
//@in 0
    let ghost s0 = subs;
    let ghost d = item;
    let ghost g = gathered(v.take(it.index()), subs);
    proof { assert(item == v[it.index()]); assert(decreases_to!(l0 => v[it.index()])); }
//@outside 1
    let ghost es = elements@;
    proof { subs = s0.push(Element::LineBreak); assert(es.take(0) =~= Seq::empty()); }
//@loop 1 jt
    invariant
        jt.seq() == es, stack.is(put_all(g, es.take(jt.index()), paragraph_safe)), stack.errors@.len() == 0,
//@tail 1
    proof { assert(es.take(jt.index() + 1).drop_last() =~= es.take(jt.index())); }
//@after 1
    proof { assert(es.take(es.len() as int) =~= es); assert(stack.is(put_all(g, es, paragraph_safe))); }
//@at 0 `stack.pop_line_break()`
    proof { subs = s0.push(blockquote); }
//@at 0 `stack.push_element(blockquote`
    proof { assert(stack.is(unbroken(g))); }
//@tail 0
    proof {
        let w = v.take(it.index() + 1);
        assert(w.drop_last() =~= v.take(it.index()));
        assert(w.last() == d);
        assert(subs.drop_last() =~= s0);
        assert(quotes(subs, w));
        assert(stack.is(gathered(w, subs)));
    }
//@after 0
    proof { assert(v.take(v.len() as int) =~= v); assert(stack.is(gathered(v, subs))); }
//@at 1 `stack.pop_line_break()`
    let ghost g = gathered(v, subs);
//@at 0 `let vf_e`
    proof { assert(stack.is(unbroken(g))); }
//@past 0 `let vf_e = $X;`
    proof { assert(quotes(subs, v)); assert(encloses(vf_e, unbroken(g).close().done)); fold_quote(vf_e, v, subs); }
//@end
//@assume two values of the unit type are equal
#[verifier::external_body]
proof fn void_eq()
    ensures
        <() as vstd::std_specs::cmp::PartialEqSpec<()>>::obeys_eq_spec(),
        forall|a: (), b: ()| #[trigger] <() as vstd::std_specs::cmp::PartialEqSpec<()>>::eq_spec(&a, &b) == (a == b),
{ }
pub type QLines<'t> = Seq<(usize, (), Line<'t>)>;
// A line of a quote: it has as many angles in front as it is deep.
pub open spec fn quote_at<'r, 't>(p: &Parser<'r, 't>, s: int, d: (usize, (), Line<'t>)) -> bool {
    let a = p.ahead();
    let e = d.2.0@;
    &&& 0 <= s < a.len() && a[s].token is Quote && d.0 + 1 == len8(a[s].slice@) && d.0 < MAX_BLOCKQUOTE_DEPTH
    &&& e.len() > 0 && e.last() is LineBreak && no_partial(e.drop_last()) && (d.2.1 ==> all_inline(e))
}
pub open spec fn quotes_at<'r, 't>(p: &Parser<'r, 't>, lines: QLines<'t>, at: Seq<int>, end: int) -> bool {
    &&& at.len() == lines.len()
    &&& forall|k: int| 0 <= k < lines.len() ==> quote_at(p, #[trigger] at[k], lines[k]) && at[k] < end
    &&& forall|j: int, k: int| 0 <= j < k < lines.len() ==> #[trigger] at[j] < #[trigger] at[k]
}
pub open spec fn are_quotes<'t>(e: Seq<Element<'t>>, t: Seq<((), Vec<Quoted<'t>>)>) -> bool {
    e.len() == t.len() && forall|k: int| 0 <= k < t.len() ==> is_quote(#[trigger] e[k], t[k].1@)
}
pub open spec fn quoting<'r, 't>(p: &Parser<'r, 't>, lines: QLines<'t>, e: Seq<Element<'t>>) -> bool {
    &&& lines.len() > 0
    &&& exists|at: Seq<int>, end: int| quotes_at(p, lines, at, end)
    &&& exists|t: Seq<((), Vec<Quoted<'t>>)>| #[trigger] are_quotes(e, t) && flat_trees(t) == as_flat(lines) && tight_trees(t)
}
//@fn src/parsing/rule/impls/blockquote.rs try_consume_fn r
//@rename blockquote
//@sub `depths.push($X)` => `depths.push($X);`
//@sub `current.slice.len()` => `current.slice.x_len()`
//@sub `collect_consume($x)?.chain($y)` => `(collect_consume($x)?).chain($y)`
//@sub `let elements: Vec<Element> = depth_lists.into_iter().map(|(_, depth_list)| $X).collect();` => `let mut elements: Vec<Element<'t>> = Vec::new(); for vf_l in depth_lists { let (_, depth_list) = vf_l; let vf_e = $X; elements.push(vf_e); }`
//@macros
//@spec
    requires old(parser).starts(RULE_BLOCKQUOTE),
    ensures final(parser).ruled(old(parser), r),
        r.is_ok() ==> !r->Ok_0.paragraph_safe && exists|lines: QLines<'t>| #[trigger] quoting(old(parser), lines, r->Ok_0.item@),
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    let ghost mut at: Seq<int> = Seq::empty();
    proof { ran_refl(&p0); void_eq(); }
//@loop 0
    invariant
        *old(parser) == p0, p0.starts(RULE_BLOCKQUOTE), parser.ran(&p0), parser.wf(), parser.depth == p0.depth, parser.accepts_partial is None,
        quotes_at(&p0, depths@, at, p0.remaining@.len() - parser.remaining@.len()),
    decreases parser.remaining@.len(),
//@in 0
    broadcast use running;
    let ghost p1 = *parser;
    let ghost d1 = depths@;
    let ghost s = p0.remaining@.len() - p1.remaining@.len();
    proof {
        ran_refl(&p1);
        assert(p1.ahead()[0] == p0.ahead()[s]);
        covers_order(p1.full_text.text@, p1.ahead(), 0, 0);
        assert(p0.ahead().len() == p0.remaining@.len() + 1);
        reveal(shaped);
        if p1.current.token is Quote { first8(p1.current.slice@); }
    }
//@at 0 `elements.push(Element::LineBreak)`
    let ghost es = elements@;
//@tail 0
    proof {
        let d = depths@.last();
        assert(depths@ =~= d1.push(d));
        assert(d.2.0@ =~= es.push(Element::LineBreak));
        assert(d.2.0@.drop_last() =~= es);
        assert(quote_at(&p0, s, d));
        let a1 = at;
        at = at.push(s);
        assert forall|k: int| 0 <= k < depths@.len() implies quote_at(&p0, #[trigger] at[k], depths@[k]) && at[k] < p0.remaining@.len() - parser.remaining@.len() by {
            if k < d1.len() { assert(at[k] == a1[k]); assert(depths@[k] == d1[k]); }
        }
        assert forall|j: int, k: int| 0 <= j < k < depths@.len() implies #[trigger] at[j] < #[trigger] at[k] by {
            assert(at[j] == a1[j]);
            if k < d1.len() { assert(at[k] == a1[k]); }
        }
    }
//@after 0
    let ghost lines = depths@;
    proof {
        assert(quotes_at(&p0, lines, at, p0.remaining@.len() - parser.remaining@.len()));
        assert forall|i: int| 0 <= i < lines.len() implies (#[trigger] lines[i]).0 < usize::MAX - 1 by { assert(quote_at(&p0, at[i], lines[i])); }
    }
//@outside 1
    let ghost t = depth_lists@;
//@loop 1 jt
    invariant
        jt.seq() == t, elements@.len() == jt.index(),
        forall|k: int| 0 <= k < jt.index() ==> is_quote(#[trigger] elements@[k], t[k].1@),
//@in 1
    let ghost e1 = elements@;
    proof { assert(vf_l == t[jt.index()]); }
//@tail 1
    proof { assert forall|k: int| 0 <= k < elements@.len() implies is_quote(#[trigger] elements@[k], t[k].1@) by { if k < e1.len() { assert(elements@[k] == e1[k]); } } }
//@after 1
    proof { assert(are_quotes(elements@, t)); assert(quoting(&p0, lines, elements@)); }
//@end
pub proof fn first8(s: Seq<char>)
    requires s.len() > 0,
    ensures len8(s) >= 1,
{ assert(w8(s.last()) >= 1); }
