// C11, C09, C25, C01: the rule for simple tables.
//@import simple
//@type src/parsing/rule/impls/table.rs RULE_TABLE
//@sub `try_consume_fn,` => `try_consume_fn: Fun::Table,`
//@end
//@type src/parsing/rule/impls/table.rs TableCellStart
//@end
pub open spec fn column(t: Token) -> bool { t is TableColumn || t is TableColumnTitle || t is TableColumnLeft || t is TableColumnCenter || t is TableColumnRight }
// What the marker of a cell says of it.
pub open spec fn marked(t: Token) -> (Option<Alignment>, bool) {
    match t {
        Token::TableColumnTitle => (None, true),
        Token::TableColumnLeft => (Some(Alignment::Left), false),
        Token::TableColumnCenter => (Some(Alignment::Center), false),
        Token::TableColumnRight => (Some(Alignment::Right), false),
        _ => (None, false),
    }
}
pub open spec fn plain_columns<'r, 't>(p: &Parser<'r, 't>, s: int, e: int) -> bool { forall|i: int| s <= i < e ==> (#[trigger] p.ahead()[i]).token is TableColumn }
// A cell begins with n tokens from the s-th on: it spans n columns.
pub open spec fn cell_start<'r, 't>(p: &Parser<'r, 't>, s: int, n: int, align: Option<Alignment>, header: bool, span: nat) -> bool {
    let a = p.ahead();
    &&& 0 <= s && 0 < n && s + n < a.len() && span == n
    &&& plain_columns(p, s, s + n - 1)
    &&& column(a[s + n - 1].token) && (align, header) == marked(a[s + n - 1].token)
    &&& a[s + n - 1].token is TableColumn ==> !column(a[s + n].token)
}
//@assume a text has fewer than 2^32 tokens
#[verifier::external_body]
proof fn few_tokens(p: &Parser) ensures p.remaining@.len() < 0x1_0000_0000 { }
//@fn src/parsing/rule/impls/table.rs parse_cell_start r
//@sub `let (align, header) = loop { $BODY };` => `let mut vf_out: (Option<Alignment>, bool) = (None, false); loop { $BODY } let (align, header) = vf_out;`
//@sub `break ($X)` => `{ vf_out = ($X); break; }`
//@macros
//@sub `let mut span = 0;` => `let mut span: u32 = 0;`
//@sig
fn parse_cell_start<'r, 't>(parser: &mut Parser<'r, 't>) -> (r: Result<Option<TableCellStart>, ParseError>)
//@spec
    requires old(parser).wf(),
    ensures final(parser).moved(old(parser)), final(parser).wf(),
        match r {
            Ok(Some(x)) => cell_start(old(parser), 0, old(parser).remaining@.len() - final(parser).remaining@.len(), x.align, x.header, x.column_span@),
            Ok(None) => *final(parser) == *old(parser) && !column(old(parser).current.token),
            Err(e) => final(parser).remaining@.len() == 0,
        },
//@pre
    let ghost p0 = *parser;
    proof { from_refl(&p0); few_tokens(&p0); }
//@loop 0
    invariant_except_break
        p0.remaining@.len() < 0x1_0000_0000,
        span == p0.remaining@.len() - parser.remaining@.len(), plain_columns(&p0, 0, span as int),
        span == 0 ==> *parser == p0,
    invariant
        *old(parser) == p0, p0.wf(), parser.wf(), parser.moved(&p0),
    ensures
        span > 0, cell_start(&p0, 0, p0.remaining@.len() - parser.remaining@.len(), vf_out.0, vf_out.1, span as nat),
    decreases parser.remaining@.len(),
//@in 0
    let ghost p1 = *parser;
    proof {
        from_refl(&p1);
        assert(p1.ahead()[0] == p0.ahead()[span as int]);
        assert forall|q: Parser<'r, 't>| #[trigger] q.moved(&p1) implies q.moved(&p0) by { from_trans(&p0, &p1, &q); }
        assert(p0.ahead().len() == p0.remaining@.len() + 1);
    }
//@end
pub open spec fn begun(ends: Seq<int>, s: int, k: int) -> int { if k == 0 { s } else { ends[k - 1] } }
// A cell from the s-th token on, which ends before the column at e.
pub open spec fn cell_at<'r, 't>(p: &Parser<'r, 't>, s: int, x: TableCell<'t>, e: int) -> bool {
    let a = p.ahead();
    exists|n: int| #[trigger] cell_start(p, s, n, x.align, x.header, x.column_span@) && s + n <= e && e + 1 < a.len() && column(a[e].token)
        && no_partial(x.elements@) && x.attributes@ == Map::<Seq<char>, Seq<char>>::empty()
}
pub open spec fn cells_at<'r, 't>(p: &Parser<'r, 't>, s: int, cells: Seq<TableCell<'t>>, ends: Seq<int>) -> bool {
    cells.len() == ends.len() && forall|k: int| 0 <= k < cells.len() ==> cell_at(p, begun(ends, s, k), #[trigger] cells[k], ends[k])
}
// A row from the s-th token on, whose last column is the e-th.
pub open spec fn row_at<'r, 't>(p: &Parser<'r, 't>, s: int, x: TableRow<'t>, e: int) -> bool {
    &&& x.cells@.len() > 0 && x.attributes@ == Map::<Seq<char>, Seq<char>>::empty()
    &&& exists|ends: Seq<int>| #[trigger] cells_at(p, s, x.cells@, ends) && ends.last() == e
}
// Rows are on lines which follow each other.
pub open spec fn line_of(ends: Seq<int>, k: int) -> int { if k == 0 { 0 } else { ends[k - 1] + 2 } }
pub open spec fn rows_at<'r, 't>(p: &Parser<'r, 't>, rows: Seq<TableRow<'t>>, ends: Seq<int>) -> bool {
    &&& rows.len() == ends.len()
    &&& forall|k: int| 0 <= k < rows.len() ==> row_at(p, line_of(ends, k), #[trigger] rows[k], ends[k]) && (k < rows.len() - 1 ==> p.ahead()[ends[k] + 1].token is LineBreak)
}
pub open spec fn tabled<'r, 't>(p: &Parser<'r, 't>, rows: Seq<TableRow<'t>>, n: int) -> bool {
    exists|ends: Seq<int>| #[trigger] rows_at(p, rows, ends) && rows.len() > 0 && match p.ahead()[ends.last() + 1].token {
        // the end of the line is part of the table, a blank line and the end of the input are not
        Token::LineBreak => n == ends.last() + 2,
        Token::ParagraphBreak | Token::InputEnd => n == ends.last() + 1,
        _ => false,
    }
}
pub open spec fn is_table<'r, 't>(p: &Parser<'r, 't>, e: Seq<Element<'t>>, n: int) -> bool {
    e.len() == 1 && match e[0] { Element::Table(t) => tabled(p, t.rows@, n) && t.attributes@ == Map::<Seq<char>, Seq<char>>::empty().insert("class"@, "wj-table"@), _ => false }
}
// proved of AttributeMap::insert() in unit attributes, where "class" is one of the safe names
#[verifier::external_body]
fn vf_class<'t>(a: &mut AttributeMap<'t>, value: Cow<'t, str>) ensures final(a)@ == old(a)@.insert("class"@, value@) { unimplemented!() }
pub open spec fn pos(p: &Parser, q: &Parser) -> int { p.remaining@.len() - q.remaining@.len() }
pub open spec fn on<'r, 't>(p: &Parser<'r, 't>, q: &Parser<'r, 't>) -> bool { q.ran(p) && q.wf() && q.depth == p.depth && q.accepts_partial is None }
pub open spec fn marks(m: SharedItemsMark, p: &Parser) -> bool {
    m.table_of_contents == p.table_of_contents@.len() && m.html_blocks == p.html_blocks@.len() && m.code_blocks == p.code_blocks@.len()
        && m.footnotes == p.footnotes@.len() && m.bibliographies == p.bibliographies.0@.len()
}
pub open spec fn next_line<'r, 't>(p: &Parser<'r, 't>, ends: Seq<int>) -> bool { ends.len() > 0 ==> p.ahead()[ends.last() + 1].token is LineBreak }
pub proof fn same_spot<'r, 't>(p: &Parser<'r, 't>, q: &Parser<'r, 't>)
    requires q.from(p),
    ensures *q.current == p.ahead()[pos(p, q)], q.remaining@.len() > 0 ==> q.remaining@[0] == p.ahead()[pos(p, q) + 1],
        p.ahead().len() == p.remaining@.len() + 1,
{
    assert(q.ahead()[0] == *q.current);
    if q.remaining@.len() > 0 { assert(q.ahead()[1] == q.remaining@[0]); }
}
pub proof fn start_from<'r, 't>(p: &Parser<'r, 't>, q: &Parser<'r, 't>, n: int, align: Option<Alignment>, header: bool, span: nat)
    requires q.from(p), cell_start(q, 0, n, align, header, span),
    ensures cell_start(p, pos(p, q), n, align, header, span),
{
    let s = pos(p, q);
    assert forall|i: int| 0 <= i < q.ahead().len() implies #[trigger] q.ahead()[i] == p.ahead()[s + i] by {}
    assert forall|i: int| s <= i < s + n - 1 implies (#[trigger] p.ahead()[i]).token is TableColumn by { assert(q.ahead()[i - s].token is TableColumn); }
}
pub proof fn more_cells<'r, 't>(p: &Parser<'r, 't>, s: int, cells: Seq<TableCell<'t>>, ends: Seq<int>, x: TableCell<'t>, e: int)
    requires cells_at(p, s, cells, ends), cell_at(p, begun(ends, s, ends.len() as int), x, e),
    ensures cells_at(p, s, cells.push(x), ends.push(e)),
{
    hide(cell_at);
    let c2 = cells.push(x);
    let e2 = ends.push(e);
    assert forall|k: int| 0 <= k < c2.len() implies cell_at(p, begun(e2, s, k), #[trigger] c2[k], e2[k]) by {
        if k > 0 { assert(e2[k - 1] == ends[k - 1]); }
        if k < cells.len() { assert(c2[k] == cells[k] && e2[k] == ends[k]); }
    }
}
pub proof fn more_rows<'r, 't>(p: &Parser<'r, 't>, rows: Seq<TableRow<'t>>, ends: Seq<int>, x: TableRow<'t>, e: int)
    requires rows_at(p, rows, ends), next_line(p, ends), row_at(p, line_of(ends, ends.len() as int), x, e),
    ensures rows_at(p, rows.push(x), ends.push(e)),
{
    hide(row_at);
    let r2 = rows.push(x);
    let e2 = ends.push(e);
    assert forall|k: int| 0 <= k < r2.len() implies row_at(p, line_of(e2, k), #[trigger] r2[k], e2[k]) && (k < r2.len() - 1 ==> p.ahead()[e2[k] + 1].token is LineBreak) by {
        if k > 0 { assert(e2[k - 1] == ends[k - 1]); }
        if k < rows.len() { assert(r2[k] == rows[k] && e2[k] == ends[k]); if k == rows.len() - 1 { assert(ends[k] == ends.last()); } }
    }
}
//@fn src/parsing/rule/impls/table.rs try_consume_fn r
//@rename table
//@sub `ok!(false; Element::Table(table), errors)` => `let vf_e = Element::Table(table); ok!(false; vf_e, errors)`
//@sub `attributes.insert("class", $v);` => `vf_class(&mut attributes, $v);`
//@sub `let row_start = parser.clone();` => `let row_start = parser.vf_clone();`
//@sub `elements.extend(new_elements);` => `vf_extend(&mut elements, new_elements);`
//@sub `consume(parser)?.chain($y)` => `(consume(parser)?).chain($y)`
//@macros
//@sub `mem::take($x)` => `vf_take($x)`
//@spec
    requires old(parser).starts(RULE_TABLE),
    ensures final(parser).ruled(old(parser), r),
        r.is_ok() ==> !r->Ok_0.paragraph_safe && is_table(old(parser), r->Ok_0.item@, old(parser).remaining@.len() - final(parser).remaining@.len()),
//@sub `let mut elements = Vec::new();` => `let mut elements: Vec<Element<'t>> = Vec::new();`
//@sub `'cell: loop` => `let ghost c0 = pos(&p0, &p2); let ghost n = pos(&p0, parser) - c0; proof { start_from(&p0, &p2, n, align, header, column_span@); } 'cell: loop`
//@pre
    broadcast use running;
    let ghost p0 = *parser;
    let ghost mut ends: Seq<int> = Seq::empty();
    let ghost rs0: Seq<TableRow<'t>> = Seq::empty();
    proof { ran_refl(&p0); }
//@loop 0
    invariant_except_break
        rows_at(&p0, rows@, ends), next_line(&p0, ends), line_of(ends, ends.len() as int) == pos(&p0, parser),
    invariant
        *old(parser) == p0, p0.starts(RULE_TABLE), on(&p0, parser),
    ensures
        tabled(&p0, rows@, pos(&p0, parser)),
    decreases parser.remaining@.len(),
//@in 0
    broadcast use running;
    let ghost p1 = *parser;
    let ghost rs = rows@;
    let ghost s = pos(&p0, &p1);
    let ghost mut cends: Seq<int> = Seq::empty();
    proof { ran_refl(&p1); }
//@loop 1
    invariant_except_break
        cells_at(&p0, s, cells@, cends), begun(cends, s, cends.len() as int) == pos(&p0, parser), s <= pos(&p0, parser), cends.len() > 0 ==> pos(&p0, parser) < p0.remaining@.len(),
    invariant
        *old(parser) == p0, p0.starts(RULE_TABLE), on(&p0, parser), on(&p0, &p1), parser.ran(&p1), row_start == p1, marks(row_mark, &p1), s == pos(&p0, &p1),
        rows@ == rs, rows_at(&p0, rs, ends), next_line(&p0, ends), line_of(ends, ends.len() as int) == s,
    ensures
        cells_at(&p0, s, cells@, cends), cends.len() > 0, cends.last() + 2 == pos(&p0, parser), p0.ahead()[cends.last() + 1].token is LineBreak,
        parser.remaining@.len() < p1.remaining@.len(),
    decreases parser.remaining@.len(),
//@in 1
    broadcast use running;
    let ghost p2 = *parser;
    let ghost cs = cells@;
    proof { ran_refl(&p2); assert(p2.ran(&p0)); same_spot(&p0, &p2); }
//@loop 2
    invariant
        *old(parser) == p0, p0.starts(RULE_TABLE), on(&p0, parser), on(&p0, &p1), parser.ran(&p1), row_start == p1, marks(row_mark, &p1), s == pos(&p0, &p1),
        rows@ == rs, rows_at(&p0, rs, ends), next_line(&p0, ends), line_of(ends, ends.len() as int) == s,
        cells_at(&p0, s, cells@, cends), begun(cends, s, cends.len() as int) == c0,
        cell_start(&p0, c0, n, align, header, column_span@), c0 + n <= pos(&p0, parser), no_partial(elements@), c0 == pos(&p0, &p2), p2.ran(&p1), cells@ == cs,
    ensures
        column(parser.current.token), parser.remaining@.len() > 0,
    decreases parser.remaining@.len(),
//@in 2
    broadcast use running;
    let ghost p3 = *parser;
    let ghost e = pos(&p0, &p3);
    let ghost els = elements@;
    proof { ran_refl(&p3); same_spot(&p0, &p3); }
//@past 0 `cells.push($X);`
    proof {
        let x = cells@.last();
        let e = pos(&p0, &p3);
        assert(cells@ =~= cs.push(x));
        assert(cell_start(&p0, c0, n, x.align, x.header, x.column_span@));
        assert(cell_at(&p0, begun(cends, s, cends.len() as int), x, e));
        more_cells(&p0, s, cs, cends, x, e);
        cends = cends.push(e);
    }
//@past 1 `cells.push($X);`
    proof {
        let x = cells@.last();
        let e = pos(&p0, &p3);
        assert(cells@ =~= cs.push(x));
        assert(cell_start(&p0, c0, n, x.align, x.header, x.column_span@));
        assert(cell_at(&p0, begun(cends, s, cends.len() as int), x, e));
        more_cells(&p0, s, cs, cends, x, e);
        cends = cends.push(e);
    }
//@past 2 `cells.push($X);`
    proof {
        let x = cells@.last();
        let e = pos(&p0, parser);
        same_spot(&p0, parser);
        assert(cells@ =~= cs.push(x));
        assert(cell_start(&p0, c0, n, x.align, x.header, x.column_span@));
        assert(cell_at(&p0, begun(cends, s, cends.len() as int), x, e));
        more_cells(&p0, s, cs, cends, x, e);
        cends = cends.push(e);
    }
//@past 0 `rows.push($X);`
    proof {
        let x = rows@.last();
        let e = pos(&p0, &p3);
        assert(rows@ =~= rs.push(x));
        assert(cells_at(&p0, s, x.cells@, cends));
        assert(row_at(&p0, s, x, e));
        more_rows(&p0, rs, ends, x, e);
        ends = ends.push(e);
    }
//@past 1 `rows.push($X);`
    proof {
        let x = rows@.last();
        let e = cends.last();
        assert(rows@ =~= rs.push(x));
        assert(cells_at(&p0, s, x.cells@, cends));
        assert(row_at(&p0, s, x, e));
        more_rows(&p0, rs, ends, x, e);
        ends = ends.push(e);
    }
//@at 0 `parser.discard_shared_items(row_mark)`
    proof { assert(parser.more_lists(&p1)); }
//@past 0 `parser.discard_shared_items(row_mark);`
    proof { from_refl(&p1); more_refl(&p1); assert(parser.at(&p1)); assert(parser.from(&p1)); assert(parser.same_lists(&p1)); assert(parser.ran(&p1)); from_wf(&p0, parser); assert(rows_at(&p0, rows@, ends)); assert(tabled(&p0, rows@, pos(&p0, parser))); }
//@at 1 `parser.discard_shared_items(row_mark)`
    proof { assert(parser.more_lists(&p1)); }
//@past 1 `parser.discard_shared_items(row_mark);`
    proof { from_refl(&p1); more_refl(&p1); assert(parser.at(&p1)); assert(parser.from(&p1)); assert(parser.same_lists(&p1)); assert(parser.ran(&p1)); from_wf(&p0, parser); assert(rows_at(&p0, rows@, ends)); assert(tabled(&p0, rows@, pos(&p0, parser))); }
//@at 1 `break 'table`
    proof { assert(rows_at(&p0, rows@, ends)); assert(tabled(&p0, rows@, pos(&p0, parser))); }
//@past 0 `let vf_e = $X;`
    proof { let e = seq![vf_e]; assert(is_table(&p0, e, pos(&p0, parser))); }
//@end
