// C09, C11, C01, C20: the parser's token pointer, the lists it gathers, and how a rule is tried.
//@import text
//@type src/parsing/parser.rs MAX_RECURSION_DEPTH
//@end
// Headings have six levels.
pub open spec fn shallow(t: Seq<(usize, String)>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 <= 5 }
impl<'r, 't> Parser<'r, 't> {
    // The tokens from the current one on.
    pub open spec fn ahead(&self) -> Toks<'t> { seq![*self.current] + self.remaining@ }
    // Tokens end in one end of input, which is nowhere else, and cover the rest of the text.
    pub open spec fn wf(&self) -> bool {
        &&& covers(self.full_text.text@, self.ahead())
        &&& (self.current.token == Token::InputEnd <==> self.remaining@.len() == 0)
        &&& forall|i: int| 0 <= i < self.remaining@.len() ==> ((#[trigger] self.remaining@[i]).token == Token::InputEnd <==> i == self.remaining@.len() - 1)
    }
    // The same token list, as far on or further.
    pub open spec fn from(&self, o: &Self) -> bool {
        &&& self.remaining@.len() <= o.remaining@.len()
        &&& self.ahead() == o.ahead().skip(o.remaining@.len() - self.remaining@.len())
    }
    pub open spec fn at(&self, o: &Self) -> bool { self.current == o.current && self.remaining@ == o.remaining@ }
    // What is fixed for a whole parse.
    pub open spec fn same_job(&self, o: &Self) -> bool { self.page_info == o.page_info && self.settings == o.settings && self.full_text == o.full_text }
    pub open spec fn same_lists(&self, o: &Self) -> bool {
        &&& self.table_of_contents@ == o.table_of_contents@
        &&& self.html_blocks@ == o.html_blocks@
        &&& self.code_blocks@ == o.code_blocks@
        &&& self.footnotes@ == o.footnotes@
        &&& self.bibliographies.0@ == o.bibliographies.0@
    }
    // Things were only added to the lists.
    pub open spec fn more_lists(&self, o: &Self) -> bool {
        &&& o.table_of_contents@.is_prefix_of(self.table_of_contents@)
        &&& shallow(o.table_of_contents@) ==> shallow(self.table_of_contents@)
        &&& o.html_blocks@.is_prefix_of(self.html_blocks@)
        &&& o.code_blocks@.is_prefix_of(self.code_blocks@)
        &&& o.footnotes@.is_prefix_of(self.footnotes@)
        &&& o.bibliographies.0@.is_prefix_of(self.bibliographies.0@)
    }
    pub open spec fn same_flags(&self, o: &Self) -> bool {
        &&& self.rule == o.rule
        &&& self.accepts_partial == o.accepts_partial
        &&& self.outer_partial == o.outer_partial
        &&& self.in_footnote == o.in_footnote
        &&& self.has_footnote_block == o.has_footnote_block
    }
    // Everything but the position.
    pub open spec fn moved(&self, o: &Self) -> bool { self.from(o) && self.same_job(o) && self.same_lists(o) && self.same_flags(o) && self.depth == o.depth }
    #[verifier::external_body]
    pub fn vf_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    // The lists behind the clone's pointers are this parser's.
    #[verifier::external_body]
    pub fn vf_shared(&mut self, clone: &Self)
        ensures final(self).same_lists(clone), final(self).at(old(self)), final(self).same_job(old(self)), final(self).same_flags(old(self)),
            final(self).depth == old(self).depth, final(self).start_of_line == old(self).start_of_line,
    { unimplemented!() }
}
pub proof fn from_refl(a: &Parser) ensures a.from(a) { assert(a.ahead().skip(0) =~= a.ahead()); }
pub proof fn from_trans(a: &Parser, b: &Parser, c: &Parser)
    requires b.from(a), c.from(b),
    ensures c.from(a),
{ assert(a.ahead().skip(a.remaining@.len() - b.remaining@.len()).skip(b.remaining@.len() - c.remaining@.len()) =~= a.ahead().skip(a.remaining@.len() - c.remaining@.len())); }
pub proof fn from_same(a: &Parser, b: &Parser)
    requires b.from(a), b.remaining@.len() == a.remaining@.len(),
    ensures b.at(a),
{
    assert(a.ahead().skip(0) =~= a.ahead());
    assert(b.ahead()[0] == a.ahead()[0]);
    assert(b.remaining@ =~= b.ahead().skip(1));
    assert(a.remaining@ =~= a.ahead().skip(1));
}
// Where the tokens end does not depend on how far one is.
pub proof fn from_wf(a: &Parser, b: &Parser)
    requires a.wf(), b.from(a), b.full_text == a.full_text,
    ensures b.wf(),
{
    let k = a.remaining@.len() - b.remaining@.len();
    covers_skip(a.full_text.text@, a.ahead(), k);
    assert(b.ahead().len() == b.remaining@.len() + 1);
    assert forall|i: int| 0 <= i < b.ahead().len() implies #[trigger] b.ahead()[i] == a.ahead()[i + k] by {}
    assert forall|i: int| 0 <= i < b.remaining@.len() implies ((#[trigger] b.remaining@[i]).token == Token::InputEnd <==> i == b.remaining@.len() - 1) by {
        assert(b.remaining@[i] == b.ahead()[i + 1]);
        assert(a.ahead()[i + 1 + k] == a.remaining@[i + k]);
    }
    assert(*b.current == b.ahead()[0]);
    if k > 0 { assert(a.ahead()[k] == a.remaining@[k - 1]); } else { assert(a.ahead()[0] == *a.current); }
}
// Token slices of a parse are parts of one list, so they are the same if they are as long.
//@assume two token slices of one parse start at the same address exactly when they are equally long (all are tails of one list)
#[verifier::external_body]
pub fn vf_same<'r, 't>(a: &'r [ExtractedToken<'t>], b: &'r [ExtractedToken<'t>]) -> (r: bool)
    ensures r == (a@.len() == b@.len()),
{ unimplemented!() }
impl ParseError {
//@fn src/parsing/error.rs @ `impl ParseError` new r
//@sub `Range::clone(&current.span)` => `vf_range(&current.span)`
//@sub `cow!(rule.name())` => `Cow::Borrowed(rule.name())`
//@spec
    ensures r.token == current.token, r.kind == kind, r.span == current.span, r.rule@ == rule.name@,
//@end
//@fn src/parsing/error.rs @ `impl ParseError` kind r
//@spec
    ensures r == self.kind,
//@end
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_range(a: &Range<usize>) -> (r: Range<usize>) ensures r == *a { unimplemented!() }
impl Rule {
//@fn src/parsing/rule/mod.rs @ `impl Rule` name r
//@spec
    ensures r@ == self.name@,
//@end
}
impl PartialElement<'_> {
//@fn src/tree/partial.rs @ `impl PartialElement<'_>` parse_error_kind r
//@spec
    ensures r == match *self {
        PartialElement::ListItem(_) => ParseErrorKind::ListItemOutsideList,
        PartialElement::TableRow(_) => ParseErrorKind::TableRowOutsideTable,
        PartialElement::TableCell(_) => ParseErrorKind::TableCellOutsideTable,
        PartialElement::Tab(_) => ParseErrorKind::TabOutsideTabView,
        PartialElement::RubyText(_) => ParseErrorKind::RubyTextOutsideRuby,
    },
//@end
}
pub open spec fn takes(a: AcceptsPartial, p: PartialElement) -> bool {
    match (a, p) {
        (AcceptsPartial::ListItem, PartialElement::ListItem(_)) | (AcceptsPartial::TableRow, PartialElement::TableRow(_))
        | (AcceptsPartial::TableCell, PartialElement::TableCell(_)) | (AcceptsPartial::Tab, PartialElement::Tab(_))
        | (AcceptsPartial::Ruby, PartialElement::RubyText(_)) => true,
        _ => false,
    }
}
// Every half-finished element among these is of the kind looked for.
pub open spec fn taken(a: AcceptsPartial, s: Seq<Element>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] { Element::Partial(p) => takes(a, p), _ => true }
}
impl AcceptsPartial {
//@fn src/tree/partial.rs @ `impl AcceptsPartial` matches r
//@spec
    ensures r == takes(self, *partial),
//@end
}
impl<'r, 't> Parser<'r, 't> {
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` settings r
//@spec
    ensures *r == *self.settings,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` full_text r
//@spec
    ensures r == self.full_text,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` rule r
//@spec
    ensures r == self.rule,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` accepts_partial r
//@spec
    ensures r == self.accepts_partial,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` outer_partial r
//@spec
    ensures r == self.outer_partial,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` in_footnote r
//@spec
    ensures r == self.in_footnote,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` has_footnote_block r
//@spec
    ensures r == self.has_footnote_block,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` start_of_line r
//@spec
    ensures r == self.start_of_line,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` current r
//@spec
    ensures r == self.current,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` remaining r
//@spec
    ensures r == self.remaining,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` set_rule
//@spec
    ensures *final(self) == (Parser { rule, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` clone_with_rule r
//@sub `self.clone()` => `self.vf_clone()`
//@spec
    ensures r == (Parser { rule, outer_partial: self.accepts_partial, accepts_partial: AcceptsPartial::None, ..*self }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` make_err r
//@spec
    ensures r.kind == kind, r.token == self.current.token, r.span == self.current.span,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` depth_increment r
//@spec
    requires old(self).depth < usize::MAX,
    ensures
        *final(self) == (Parser { depth: (old(self).depth + 1) as usize, ..*old(self) }),
        r.is_ok() == (old(self).depth < MAX_RECURSION_DEPTH),
        r.is_err() ==> r->Err_0.kind == ParseErrorKind::RecursionDepthExceeded,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` depth_decrement
//@spec
    requires old(self).depth > 0,
    ensures *final(self) == (Parser { depth: (old(self).depth - 1) as usize, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` set_accepts_partial
//@spec
    ensures *final(self) == (Parser { accepts_partial: value, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` set_footnote_flag
//@spec
    ensures *final(self) == (Parser { in_footnote: value, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` set_footnote_block
//@spec
    ensures *final(self) == (Parser { has_footnote_block: true, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` check_page_syntax r
//@spec
    ensures r.is_ok() == self.settings.enable_page_syntax, r.is_err() ==> r->Err_0.kind == ParseErrorKind::NotSupportedMode,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` table_of_contents_len r
//@sub `.borrow()` => ``
//@spec
    ensures r == self.table_of_contents@.len(),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` insert_table_of_contents_entry
//@sub `.borrow_mut()` => ``
//@sub `TextRender.render_partial($x)` => `vf_plain($x)`
//@sub `usize::from(heading.value())` => `heading.value() as usize`
//@spec
    requires index <= old(self).table_of_contents@.len(),
    ensures
        final(self).table_of_contents@ == old(self).table_of_contents@.insert(index as int, final(self).table_of_contents@[index as int]),
        final(self).table_of_contents@[index as int].0 == hlevel(heading) - 1,
        final(self).table_of_contents@[index as int].1@ == plain(name_elements@, *old(self).page_info, *old(self).settings),
        *final(self) == (Parser { table_of_contents: final(self).table_of_contents, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` remove_html_blocks r
//@sub `.borrow_mut()` => ``
//@sub `mem::take(` => `vf_take(`
//@spec
    ensures r@ == old(self).html_blocks@, *final(self) == (Parser { html_blocks: final(self).html_blocks, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` remove_code_blocks r
//@sub `.borrow_mut()` => ``
//@sub `mem::take(` => `vf_take(`
//@spec
    ensures r@ == old(self).code_blocks@, *final(self) == (Parser { code_blocks: final(self).code_blocks, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` remove_table_of_contents r
//@sub `.borrow_mut()` => ``
//@sub `mem::take(` => `vf_take(`
//@spec
    ensures r@ == old(self).table_of_contents@, *final(self) == (Parser { table_of_contents: final(self).table_of_contents, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` push_footnote
//@sub `.borrow_mut()` => ``
//@spec
    ensures final(self).footnotes@ == old(self).footnotes@.push(contents), *final(self) == (Parser { footnotes: final(self).footnotes, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` remove_footnotes r
//@sub `.borrow_mut()` => ``
//@sub `mem::take(` => `vf_take(`
//@spec
    ensures r@ == old(self).footnotes@, *final(self) == (Parser { footnotes: final(self).footnotes, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` shared_items_mark r
//@sub `.borrow()` => ``
//@spec
    ensures
        r.table_of_contents == self.table_of_contents@.len(), r.html_blocks == self.html_blocks@.len(), r.code_blocks == self.code_blocks@.len(),
        r.footnotes == self.footnotes@.len(), r.bibliographies == self.bibliographies.0@.len(), r.has_footnote_block == self.has_footnote_block,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` discard_shared_items
//@sub `.borrow_mut()` => ``
//@spec
    ensures
        // whatever was added since the mark is gone, and nothing else
        forall|o: Parser| #![trigger old(self).more_lists(&o)] old(self).more_lists(&o) && mark.table_of_contents == o.table_of_contents@.len()
            && mark.html_blocks == o.html_blocks@.len() && mark.code_blocks == o.code_blocks@.len()
            && mark.footnotes == o.footnotes@.len() && mark.bibliographies == o.bibliographies.0@.len() ==> final(self).same_lists(&o),
        final(self).has_footnote_block == mark.has_footnote_block,
        final(self).at(old(self)), final(self).same_job(old(self)), final(self).depth == old(self).depth, final(self).start_of_line == old(self).start_of_line,
        final(self).same_flags(&(Parser { has_footnote_block: mark.has_footnote_block, ..*old(self) })),
//@post
    proof {
        assert forall|o: Parser| #![trigger old(self).more_lists(&o)] old(self).more_lists(&o) && mark.table_of_contents == o.table_of_contents@.len()
            && mark.html_blocks == o.html_blocks@.len() && mark.code_blocks == o.code_blocks@.len()
            && mark.footnotes == o.footnotes@.len() && mark.bibliographies == o.bibliographies.0@.len() implies self.same_lists(&o) by {
            assert(self.table_of_contents@ =~= o.table_of_contents@);
            assert(self.html_blocks@ =~= o.html_blocks@);
            assert(self.code_blocks@ =~= o.code_blocks@);
            assert(self.footnotes@ =~= o.footnotes@);
            assert(self.bibliographies.0@ =~= o.bibliographies.0@);
        }
    }
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` push_html_block
//@sub `.borrow_mut()` => ``
//@spec
    ensures final(self).html_blocks@ == old(self).html_blocks@.push(new_block), *final(self) == (Parser { html_blocks: final(self).html_blocks, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` push_code_block r
//@sub `.borrow_mut()` => ``
//@sub `self.code_blocks.borrow()` => `&self.code_blocks`
//@sub `&*guard` => `guard.iter()`
//@sub `name == new_name` => `vf_eq(vf_cow(name), vf_cow(new_name))`
//@spec
    ensures
        r.is_ok() ==> final(self).code_blocks@ == old(self).code_blocks@.push(new_block),
        r.is_err() ==> final(self).code_blocks@ == old(self).code_blocks@,
        r.is_err() == has_name(old(self).code_blocks@, new_block.name),
        *final(self) == (Parser { code_blocks: final(self).code_blocks, ..*old(self) }),
//@loop 0 it
    invariant
        it.seq().len() == guard@.len(), guard@ == old(self).code_blocks@, self.code_blocks@ == guard@, *self == *old(self),
        new_block.name == Some(*new_name),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == guard@[i],
        forall|i: int| 0 <= i < it.index() ==> !named(#[trigger] guard@[i], new_name@),
//@in 0
    proof { assert(*block == guard@[it.index()]); }
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` push_bibliography r
//@sub `self.bibliographies.borrow_mut()` => `&mut self.bibliographies`
//@spec
    ensures
        r == old(self).bibliographies.0@.len(), final(self).bibliographies.0@ == old(self).bibliographies.0@.push(bibliography),
        *final(self) == (Parser { bibliographies: final(self).bibliographies, ..*old(self) }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` append_shared_items
//@sub `.borrow_mut()` => ``
//@spec
    ensures shallow(old(table_of_contents)@) ==> final(self).more_lists(old(self)), final(self).at(old(self)), final(self).same_job(old(self)), final(self).same_flags(old(self)),
        final(self).footnotes@ == old(self).footnotes@ + old(footnotes)@,
        final(self).table_of_contents@ == old(self).table_of_contents@ + old(table_of_contents)@,
        final(self).html_blocks@ == old(self).html_blocks@ + old(html_blocks)@,
        final(self).code_blocks@ == old(self).code_blocks@ + old(code_blocks)@,
        final(self).bibliographies.0@ == old(self).bibliographies.0@ + old(bibliographies).0@,
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` evaluate r
//@spec
    ensures r == holds(condition, self),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` evaluate_any r
//@sub `conditions.iter().any(|&condition| $x)` => `{ let mut vf_any = false; for &condition in conditions.iter() { if $x { vf_any = true; break; } } vf_any }`
//@spec
    ensures r == any_holds(conditions@, self),
//@loop 0 it
    invariant_except_break
        !vf_any, forall|i: int| 0 <= i < it.index() ==> !holds(#[trigger] conditions@[i], self),
    invariant
        it.seq().len() == conditions@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == conditions@[i],
    ensures vf_any == any_holds(conditions@, self),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` update
//@spec
    ensures *final(self) == (Parser {
        in_footnote: parser.in_footnote, has_footnote_block: parser.has_footnote_block, start_of_line: parser.start_of_line,
        current: parser.current, remaining: parser.remaining, ..*old(self)
    }),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` same_pointer r
//@sub `ptr::eq(` => `vf_same(`
//@spec
    ensures r == (self.remaining@.len() == old_remaining@.len()),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` step r
//@spec
    ensures
        r.is_ok() == (old(self).remaining@.len() > 0),
        r.is_ok() ==> final(self).remaining@ == old(self).remaining@.skip(1) && *final(self).current == old(self).remaining@[0] && *r->Ok_0 == old(self).remaining@[0],
        r.is_err() ==> final(self).at(old(self)) && r->Err_0.kind == ParseErrorKind::EndOfInput,
        final(self).moved(old(self)),
        final(self).start_of_line == (old(self).current.token is InputStart || old(self).current.token is LineBreak || old(self).current.token is ParagraphBreak),
        old(self).wf() ==> final(self).wf(),
        r.is_ok() ==> final(self).remaining@.len() == old(self).remaining@.len() - 1,
//@sub `self.remaining.split_first()` => `vf_split_first(self.remaining)`
//@pre
    proof {
        from_refl(&*self);
        if self.remaining@.len() > 0 {
            assert(seq![self.remaining@[0]] + self.remaining@.skip(1) =~= self.ahead().skip(1));
            if self.wf() { covers_skip(self.full_text.text@, self.ahead(), 1); }
        }
    }
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` step_n r
//@spec
    ensures
        r.is_ok() == (old(self).remaining@.len() >= count),
        r.is_ok() ==> final(self).remaining@ == old(self).remaining@.skip(count as int),
        final(self).moved(old(self)),
        old(self).wf() ==> final(self).wf(),
//@loop 0 it
    invariant
        it.seq().len() == count,
        self.remaining@ == old(self).remaining@.skip(it.index()), it.index() <= old(self).remaining@.len(),
        self.moved(old(self)), old(self).wf() ==> self.wf(),
//@outside 0
    proof { from_refl(&*self); assert(self.remaining@.skip(0) =~= self.remaining@); }
//@in 0
    let ghost before = *self;
    proof {
        assert forall|b: Parser| #![trigger b.moved(&before)] b.moved(&before) implies b.moved(old(self)) by { from_trans(old(self), &before, &b); }
        if before.remaining@.len() > 0 { assert(before.remaining@.skip(1) =~= old(self).remaining@.skip(it.index() + 1)); }
    }
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` look_ahead r
//@spec
    ensures match r { Some(t) => offset < self.remaining@.len() && *t == self.remaining@[offset as int], None => offset >= self.remaining@.len() },
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` look_ahead_err r
//@sub `self.look_ahead(offset).ok_or_else(|| $x)` => `match self.look_ahead(offset) { Some(vf_v) => Ok(vf_v), None => Err($x) }`
//@spec
    ensures match r { Ok(t) => offset < self.remaining@.len() && *t == self.remaining@[offset as int], Err(e) => offset >= self.remaining@.len() && e.kind == ParseErrorKind::EndOfInput },
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` next_two_tokens r
//@sub `.map(|next| next.token)` => `.map(|next: &ExtractedToken| -> (vf_r: Token) ensures vf_r == next.token { next.token })`
//@spec
    ensures r.0 == self.current.token, r.1 == tok(self.remaining@, 0),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` next_three_tokens r
//@sub `.map(|next| next.token)` => `.map(|next: &ExtractedToken| -> (vf_r: Token) ensures vf_r == next.token { next.token })`
//@spec
    ensures r.0 == self.current.token, r.1 == tok(self.remaining@, 0), r.2 == tok(self.remaining@, 1),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_token r
//@spec
    ensures
        match r {
            Ok(s) => old(self).current.token == token && s == old(self).current.slice && final(self).remaining@ == old(self).remaining@.skip(1) && old(self).remaining@.len() > 0,
            Err(e) => final(self).at(old(self)) && (old(self).current.token != token || old(self).remaining@.len() == 0),
        },
        final(self).moved(old(self)),
        old(self).wf() ==> final(self).wf(),
//@pre
    proof { from_refl(&*self); }
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_optional_token r
//@spec
    ensures
        old(self).current.token != token ==> r.is_ok() && *final(self) == *old(self),
        old(self).current.token == token ==> r.is_ok() == (old(self).remaining@.len() > 0),
        r.is_ok() && old(self).current.token == token ==> final(self).remaining@ == old(self).remaining@.skip(1),
        final(self).moved(old(self)),
        old(self).wf() ==> final(self).wf(),
//@pre
    proof { from_refl(&*self); }
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_optional_line_break r
//@spec
    ensures
        old(self).current.token != Token::LineBreak ==> r.is_ok() && *final(self) == *old(self),
        r.is_ok() && old(self).current.token == Token::LineBreak ==> final(self).remaining@ == old(self).remaining@.skip(1),
        final(self).moved(old(self)),
        old(self).wf() ==> final(self).wf() && r.is_ok(),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_optional_space r
//@spec
    ensures
        old(self).current.token != Token::Whitespace ==> r.is_ok() && *final(self) == *old(self),
        r.is_ok() && old(self).current.token == Token::Whitespace ==> final(self).remaining@ == old(self).remaining@.skip(1),
        final(self).moved(old(self)),
        old(self).wf() ==> final(self).wf() && r.is_ok(),
//@end
//@fn src/parsing/parser.rs @ `impl<'r, 't> Parser<'r, 't>` get_optional_spaces_any r
//@sub `tokens.contains(&current_token)` => `vf_among(tokens, current_token)`
//@spec
    ensures
        r.is_ok() ==> !(final(self).current.token is Whitespace || final(self).current.token is LineBreak || final(self).current.token is ParagraphBreak || final(self).current.token is Equals),
        final(self).moved(old(self)), skipped(old(self), final(self)),
        old(self).wf() ==> final(self).wf() && r.is_ok(),
//@pre
    proof { from_refl(&*self); }
//@loop 0
    invariant
        tokens@ == seq![Token::Whitespace, Token::LineBreak, Token::ParagraphBreak, Token::Equals],
        self.moved(old(self)), old(self).wf() ==> self.wf(), skipped(old(self), self),
    decreases self.remaining@.len(),
//@in 0
    let ghost before = *self;
    proof {
        assert(before.ahead()[0] == old(self).ahead()[old(self).remaining@.len() - before.remaining@.len()]);
        assert(tokens@[0] is Whitespace && tokens@[1] is LineBreak && tokens@[2] is ParagraphBreak && tokens@[3] is Equals);
        assert forall|b: Parser| #![trigger b.moved(&before)] b.moved(&before) implies b.moved(old(self)) by { from_trans(old(self), &before, &b); }
    }
//@end
}
// Between the two are only blanks, ends of lines and equal signs.
pub open spec fn skippable(t: Token) -> bool { t is Whitespace || t is LineBreak || t is ParagraphBreak || t is Equals }
pub open spec fn skipped(o: &Parser, f: &Parser) -> bool { skippables(o, 0, o.remaining@.len() - f.remaining@.len()) }
pub open spec fn skippables(o: &Parser, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> skippable((#[trigger] o.ahead()[i]).token) }
#[verifier::external_body]
pub fn vf_among(v: &[Token; 4], t: Token) -> (r: bool) ensures r == v@.contains(t) { unimplemented!() }
#[verifier::external_body]
pub fn vf_split_first<'a, T>(v: &'a [T]) -> (r: Option<(&'a T, &'a [T])>)
    ensures match r { Some(x) => v@.len() > 0 && *x.0 == v@[0] && x.1@ == v@.skip(1), None => v@.len() == 0 },
{ unimplemented!() }
pub open spec fn tok(s: Toks, i: int) -> Option<Token> { if i < s.len() { Some(s[i].token) } else { None } }
pub open spec fn hlevel(h: HeadingLevel) -> int {
    match h { HeadingLevel::One => 1, HeadingLevel::Two => 2, HeadingLevel::Three => 3, HeadingLevel::Four => 4, HeadingLevel::Five => 5, HeadingLevel::Six => 6 }
}
impl HeadingLevel {
//@fn src/tree/heading.rs @ `impl HeadingLevel` value r
//@spec
    ensures r == hlevel(self),
//@end
}
pub uninterp spec fn plain(e: Seq<Element>, i: PageInfo, s: WikitextSettings) -> Seq<char>;
#[verifier::external_body]
pub fn vf_plain(e: &[Element], i: &PageInfo, s: &WikitextSettings, n: usize) -> (r: String) ensures r@ == plain(e@, *i, *s) { unimplemented!() }
pub open spec fn named(b: CodeBlock, n: Seq<char>) -> bool { b.name.is_some() && b.name->Some_0@ == n }
pub open spec fn has_name(l: Seq<CodeBlock>, n: Option<Cow<str>>) -> bool { n.is_some() && exists|i: int| 0 <= i < l.len() && named(#[trigger] l[i], n->Some_0@) }
pub open spec fn holds(c: ParseCondition, p: &Parser) -> bool {
    match c {
        ParseCondition::CurrentToken(t) => p.current.token == t,
        ParseCondition::TokenPair(a, b) => p.current.token == a && p.remaining@.len() > 0 && p.remaining@[0].token == b,
    }
}
pub open spec fn any_holds(c: Seq<ParseCondition>, p: &Parser) -> bool { exists|i: int| 0 <= i < c.len() && holds(#[trigger] c[i], p) }
