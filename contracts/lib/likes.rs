// What is in the head does not depend on which half-finished elements are taken.
pub proof fn same_head<'r, 't>(o: &Parser<'r, 't>, p: &Parser<'r, 't>, more: bool, m: Map<Seq<char>, Cow<'t, str>>)
    requires head(p, more, m), p.current == o.current, p.remaining == o.remaining, p.full_text == o.full_text,
    ensures head(o, more, m),
{
    assert(p.ahead() =~= o.ahead());
    if more { let (at, l) = choose|at: Seq<int>, l: Seq<Pair<'t>>| #[trigger] head_of(p, at, l, m); assert(head_of(o, at, l, m)); }
}
pub open spec fn like<'r, 't>(q: &Parser<'r, 't>, o: &Parser<'r, 't>, a: AcceptsPartial) -> bool { *q == (Parser { accepts_partial: a, ..*o }) }
pub proof fn like_ran<'r, 't>(q: &Parser<'r, 't>, o: &Parser<'r, 't>, a: AcceptsPartial)
    requires like(q, o, a),
    ensures q.ran(o), q.from(o), q.more_lists(o),
{ from_refl(q); more_refl(q); }
pub open spec fn r_ok<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>) -> bool { r.is_ok() }
pub proof fn same_headed<'r, 't>(o: &Parser<'r, 't>, p: &Parser<'r, 't>, a: AcceptsPartial, more: bool, x: Map<Seq<char>, Seq<char>>)
    requires like(p, o, a), headed(p, more, x),
    ensures headed(o, more, x),
{ let m = choose|m: Map<Seq<char>, Cow<'t, str>>| #[trigger] head(p, more, m) && x == attributes_of(m, p.settings.isolate_user_ids); same_head(o, p, more, m); }
