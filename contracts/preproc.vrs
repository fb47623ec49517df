// C12: the preprocessor is the documented sequence of rewrites, and what holds of its result.
//@use strx
//@assume each regular expression of the preprocessor, pinned by its text, finds at or after an offset the leftmost match that `end_at` describes, and the groups that `named` and `inner` describe
//@assume white space in a regular expression (\s) and in char::is_whitespace() are the same
// ---- what the regular expressions match ----
pub enum Pat { Returns, BlankLines, FirstEnds, LastEnds, Joins, Tab, Nul, Ends3, Doubles, Lows, Singles, Dots, Leading }
pub open spec fn nl(c: char) -> bool { c == '\n' }
pub open spec fn nb(c: char) -> bool { c == '\u{a0}' || c == '\u{2007}' }
// The end of the longest run of newlines, blanks or non-breaking spaces from i on.
pub open spec fn ends_run(s: Seq<char>, i: int) -> int
    decreases s.len() - i,
{ if 0 <= i < s.len() && nl(s[i]) { ends_run(s, i + 1) } else { i } }
pub open spec fn nb_run(s: Seq<char>, i: int) -> int
    decreases s.len() - i,
{ if 0 <= i < s.len() && nb(s[i]) { nb_run(s, i + 1) } else { i } }
pub open spec fn ws_run(s: Seq<char>, i: int) -> int
    decreases s.len() - i,
{ if 0 <= i < s.len() && is_ws(s[i]) { ws_run(s, i + 1) } else { i } }
// The last end of a line in (i, e].
pub open spec fn line_end(s: Seq<char>, i: int, e: int) -> int
    decreases e - i,
{ if e <= i || e > s.len() { -1 } else if e == s.len() || nl(s[e]) { e } else { line_end(s, i, e - 1) } }
pub open spec fn line_start(s: Seq<char>, i: int) -> bool { i == 0 || nl(s[i - 1]) }
pub open spec fn quoted(s: Seq<char>, i: int, open: Seq<char>, close: Seq<char>) -> int {
    let b = i + open.len();
    let e = find_at(s, close, b);
    if b <= s.len() && s.subrange(i, b) == open && e >= 0 && !s.subrange(b, e).contains('\n') { e + close.len() } else { -1 }
}
pub open spec fn open_of(p: Pat) -> Seq<char> { match p { Pat::Doubles => seq!['`', '`'], Pat::Lows => seq![',', ','], _ => seq!['`'] } }
pub open spec fn close_of(p: Pat) -> Seq<char> { match p { Pat::Singles => seq!['\''], _ => seq!['\'', '\''] } }
// Exactly three dots, or three dots with single spaces, at b.
pub open spec fn dots(s: Seq<char>, b: int) -> int {
    let e = if b + 3 <= s.len() && s.subrange(b, b + 3) == seq!['.', '.', '.'] { b + 3 }
        else if b + 5 <= s.len() && s.subrange(b, b + 5) == seq!['.', ' ', '.', ' ', '.'] { b + 5 } else { -1 };
    if e >= 0 && (e == s.len() || s[e] != '.') { e } else { -1 }
}
pub open spec fn dots_from(s: Seq<char>, i: int) -> int { if i == 0 && dots(s, 0) >= 0 { 0 } else if s[i] != '.' && dots(s, i + 1) >= 0 { i + 1 } else { -1 } }
pub open spec fn end_at(p: Pat, s: Seq<char>, i: int) -> int {
    if !(0 <= i < s.len()) { -1 } else {
        match p {
            Pat::Returns => if s[i] != '\r' { -1 } else if i + 1 < s.len() && nl(s[i + 1]) { i + 2 } else { i + 1 },
            Pat::BlankLines => if line_start(s, i) { line_end(s, i, ws_run(s, i)) } else { -1 },
            Pat::FirstEnds => if i == 0 && nl(s[0]) { ends_run(s, 0) } else { -1 },
            Pat::LastEnds => if nl(s[i]) && ends_run(s, i) == s.len() { s.len() as int } else { -1 },
            Pat::Joins => if s[i] == '\\' && i + 1 < s.len() && nl(s[i + 1]) { i + 2 } else { -1 },
            Pat::Tab => if s[i] == '\t' { i + 1 } else { -1 },
            Pat::Nul => if s[i] == '\0' { i + 1 } else { -1 },
            Pat::Ends3 => if ends_run(s, i) >= i + 3 { ends_run(s, i) } else { -1 },
            Pat::Doubles | Pat::Lows | Pat::Singles => quoted(s, i, open_of(p), close_of(p)),
            Pat::Dots => if dots_from(s, i) >= 0 { dots(s, dots_from(s, i)) } else { -1 },
            Pat::Leading => if line_start(s, i) && nb(s[i]) { nb_run(s, i) } else { -1 },
        }
    }
}
pub open spec fn named(p: Pat, s: Seq<char>, i: int) -> Option<(int, int)> {
    match p { Pat::Dots => Some((dots_from(s, i), dots(s, dots_from(s, i)))), _ => None }
}
pub open spec fn inner(p: Pat, s: Seq<char>, i: int) -> Option<(int, int)> {
    match p { Pat::Doubles | Pat::Lows | Pat::Singles => Some((i + open_of(p).len(), end_at(p, s, i) - close_of(p).len())), _ => None }
}
pub open spec fn first(p: Pat, s: Seq<char>, i: int) -> int
    decreases s.len() - i,
{ if i < 0 || i >= s.len() { -1 } else if end_at(p, s, i) >= 0 { i } else { first(p, s, i + 1) } }
pub proof fn runs_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        i <= ends_run(s, i) <= s.len(), ends_run(s, i) < s.len() ==> !nl(s[ends_run(s, i)]), forall|j: int| i <= j < ends_run(s, i) ==> nl(#[trigger] s[j]),
        i <= nb_run(s, i) <= s.len(), nb_run(s, i) < s.len() ==> !nb(s[nb_run(s, i)]), forall|j: int| i <= j < nb_run(s, i) ==> nb(#[trigger] s[j]),
        i <= ws_run(s, i) <= s.len(), ws_run(s, i) < s.len() ==> !is_ws(s[ws_run(s, i)]), forall|j: int| i <= j < ws_run(s, i) ==> is_ws(#[trigger] s[j]),
    decreases s.len() - i,
{ if i < s.len() { runs_end(s, i + 1); } }
pub proof fn line_end_in(s: Seq<char>, i: int, e: int)
    requires 0 <= i, e <= s.len(),
    ensures ({ let k = line_end(s, i, e); k == -1 || (i < k <= e && (k == s.len() || nl(s[k]))) }),
    decreases e - i,
{ if i < e && !(e == s.len() || nl(s[e])) { line_end_in(s, i, e - 1); } }
pub proof fn first_facts(p: Pat, s: Seq<char>, i: int)
    requires 0 <= i,
    ensures ({
        let k = first(p, s, i);
        &&& k == -1 || (i <= k < s.len() && end_at(p, s, k) >= 0)
        &&& forall|j: int| i <= j < s.len() && (j < k || k < 0) ==> #[trigger] end_at(p, s, j) < 0
    }),
    decreases s.len() - i,
{ if i < s.len() && end_at(p, s, i) < 0 { first_facts(p, s, i + 1); } }
// A match is not empty and stays within the text, and so do its groups.
pub proof fn match_facts(p: Pat, s: Seq<char>, i: int)
    requires end_at(p, s, i) >= 0,
    ensures
        0 <= i < end_at(p, s, i) <= s.len(),
        match named(p, s, i) { Some(g) => i <= g.0 < g.1 <= s.len() && g.1 <= g.0 + 5 && (forall|j: int| g.0 <= j < g.1 ==> #[trigger] s[j] == '.' || s[j] == ' '), None => true },
        match inner(p, s, i) { Some(g) => i < g.0 <= g.1 < end_at(p, s, i) && !s.subrange(g.0, g.1).contains('\n')
            && s.subrange(i, g.0) == open_of(p) && s.subrange(g.1, end_at(p, s, i)) == close_of(p), None => true },
{
    runs_end(s, i);
    match p {
        Pat::BlankLines => { line_end_in(s, i, ws_run(s, i)); }
        Pat::Doubles | Pat::Lows | Pat::Singles => { find_facts(s, close_of(p), i + open_of(p).len()); }
        Pat::Dots => {
            let b = dots_from(s, i);
            let e = dots(s, b);
            assert forall|j: int| b <= j < e implies #[trigger] s[j] == '.' || s[j] == ' ' by { assert(s.subrange(b, e)[j - b] == s[j]); }
        }
        _ => {}
    }
}
// ---- one rewrite ----
pub enum Step { Swap(Pat, Seq<char>), Wrap(Pat, Seq<char>, Seq<char>), Blanks }
pub open spec fn pat_of(r: Step) -> Pat { match r { Step::Swap(p, _) => p, Step::Wrap(p, _, _) => p, Step::Blanks => Pat::Leading } }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
pub struct Edit { pub a: int, pub b: int, pub t: Seq<char> }
pub open spec fn edit(r: Step, s: Seq<char>, i: int) -> Edit {
    let e = end_at(pat_of(r), s, i);
    match r {
        Step::Swap(p, t) => match named(p, s, i) { Some(g) => Edit { a: g.0, b: g.1, t: t }, None => Edit { a: i, b: e, t: t } },
        Step::Wrap(p, l, r) => match inner(p, s, i) { Some(g) => Edit { a: i, b: e, t: l + s.subrange(g.0, g.1) + r }, None => Edit { a: i, b: e, t: l + r } },
        Step::Blanks => Edit { a: i, b: e, t: spaces(e - i) },
    }
}
pub open spec fn apply(s: Seq<char>, d: Edit) -> Seq<char> { s.take(d.a) + d.t + s.skip(d.b) }
// From left to right, each search starting behind what the last edit put in.
pub open spec fn rewrite(r: Step, s: Seq<char>, off: int) -> Seq<char>
    decreases s.len() - off,
{
    let i = first(pat_of(r), s, off);
    let d = edit(r, s, i);
    if i < 0 || !(0 <= off <= d.a < d.b <= s.len()) { s } else { rewrite(r, apply(s, d), d.a + d.t.len()) }
}
pub proof fn edit_facts(r: Step, s: Seq<char>, off: int)
    requires 0 <= off <= s.len(), first(pat_of(r), s, off) >= 0,
    ensures ({ let d = edit(r, s, first(pat_of(r), s, off)); 0 <= off <= d.a < d.b <= s.len() && apply(s, d).len() == s.len() - (d.b - d.a) + d.t.len() }),
{
    first_facts(pat_of(r), s, off);
    match_facts(pat_of(r), s, first(pat_of(r), s, off));
}
// ---- the documented sequence ----
pub open spec fn white(s: Seq<char>) -> Seq<char> {
    let s = rewrite(Step::Swap(Pat::Returns, seq!['\n']), s, 0);
    let s = rewrite(Step::Blanks, s, 0);
    let s = rewrite(Step::Swap(Pat::BlankLines, Seq::empty()), s, 0);
    let s = rewrite(Step::Swap(Pat::Joins, Seq::empty()), s, 0);
    let s = rewrite(Step::Swap(Pat::Tab, seq![' ', ' ', ' ', ' ']), s, 0);
    let s = rewrite(Step::Swap(Pat::Nul, seq![' ']), s, 0);
    let s = rewrite(Step::Swap(Pat::Ends3, seq!['\n', '\n']), s, 0);
    let s = rewrite(Step::Swap(Pat::FirstEnds, Seq::empty()), s, 0);
    rewrite(Step::Swap(Pat::LastEnds, Seq::empty()), s, 0)
}
pub open spec fn typo(s: Seq<char>) -> Seq<char> {
    let s = rewrite(Step::Wrap(Pat::Doubles, seq!['\u{201c}'], seq!['\u{201d}']), s, 0);
    let s = rewrite(Step::Wrap(Pat::Lows, seq!['\u{201e}'], seq!['\u{201d}']), s, 0);
    let s = rewrite(Step::Wrap(Pat::Singles, seq!['\u{2018}'], seq!['\u{2019}']), s, 0);
    rewrite(Step::Swap(Pat::Dots, seq!['\u{2026}']), s, 0)
}
// ---- what holds of the result ----
pub enum Fact { No(char), Lines, Runs, Ends }
pub open spec fn run3(s: Seq<char>, i: int) -> bool { nl(s[i]) && nl(s[i + 1]) && nl(s[i + 2]) }
pub open spec fn line_ok(s: Seq<char>, i: int) -> bool { nb(s[i]) ==> !line_start(s, i) }
pub open spec fn holds(k: Fact, s: Seq<char>) -> bool {
    match k {
        Fact::No(c) => forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c,
        Fact::Lines => forall|i: int| 0 <= i < s.len() ==> #[trigger] line_ok(s, i),
        Fact::Runs => forall|i: int| 0 <= i < s.len() - 2 ==> !#[trigger] run3(s, i),
        Fact::Ends => s.len() > 0 ==> !nl(s[0]) && !nl(s.last()),
    }
}
pub open spec fn lacks(t: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != c }
// Steps that put in something for something, neither with a line end.
pub open spec fn inline(r: Step) -> bool {
    match r {
        Step::Swap(p, t) => p is Dots && t.len() > 0 && lacks(t, '\n'),
        Step::Wrap(p, l, r) => (p is Doubles || p is Lows || p is Singles) && l.len() > 0 && lacks(l, '\n') && lacks(r, '\n'),
        Step::Blanks => false,
    }
}
pub open spec fn keeps(r: Step, k: Fact) -> bool {
    match k {
        Fact::No(c) => match r { Step::Swap(p, t) => lacks(t, c), Step::Wrap(p, l, r) => lacks(l, c) && lacks(r, c), Step::Blanks => c != ' ' },
        Fact::Lines => match r {
            Step::Swap(p, t) => lacks(t, '\u{a0}') && lacks(t, '\u{2007}') && match p {
                Pat::BlankLines | Pat::Joins | Pat::Ends3 | Pat::FirstEnds | Pat::LastEnds => true,
                _ => t.len() > 0 && !nl(t.last()),
            },
            Step::Wrap(p, l, r) => inline(r_of(p, l, r)) && r.len() > 0 && lacks(l, '\u{a0}') && lacks(l, '\u{2007}') && lacks(r, '\u{a0}') && lacks(r, '\u{2007}'),
            Step::Blanks => false,
        },
        Fact::Runs => inline(r),
        Fact::Ends => inline(r),
    }
}
pub open spec fn r_of(p: Pat, l: Seq<char>, r: Seq<char>) -> Step { Step::Wrap(p, l, r) }
pub proof fn wrapped(r: Step, s: Seq<char>, i: int, j: int)
    requires r is Wrap, end_at(pat_of(r), s, i) >= 0, inner(pat_of(r), s, i) is Some, 0 <= j < edit(r, s, i).t.len(),
    ensures ({
        let l = r->Wrap_1; let e = r->Wrap_2; let g = inner(pat_of(r), s, i)->Some_0; let t = edit(r, s, i).t; let n = g.1 - g.0;
        &&& t.len() == l.len() + n + e.len()
        &&& t[j] == if j < l.len() { l[j] } else if j < l.len() + n { s[g.0 + j - l.len()] } else { e[j - l.len() - n] }
        &&& l.len() <= j < l.len() + n ==> !nl(t[j])
    }),
{
    match_facts(pat_of(r), s, i);
    let g = inner(pat_of(r), s, i)->Some_0;
    let c = s.subrange(g.0, g.1);
    if r->Wrap_1.len() <= j < r->Wrap_1.len() + c.len() { assert(c[j - r->Wrap_1.len()] == s[g.0 + j - r->Wrap_1.len()]); if nl(c[j - r->Wrap_1.len()]) { assert(c.contains('\n')); } }
}
pub proof fn edit_keeps(r: Step, k: Fact, s: Seq<char>, i: int)
    requires end_at(pat_of(r), s, i) >= 0, keeps(r, k), holds(k, s), r is Wrap ==> inner(pat_of(r), s, i) is Some,
    ensures holds(k, apply(s, edit(r, s, i))),
{
    let d = edit(r, s, i);
    let u = apply(s, d);
    match_facts(pat_of(r), s, i);
    runs_end(s, i);
    let n = d.t.len() as int;
    assert(forall|j: int| 0 <= j < d.a ==> #[trigger] u[j] == s[j]);
    assert(forall|j: int| d.a <= j < d.a + n ==> #[trigger] u[j] == d.t[j - d.a]);
    assert(forall|j: int| d.a + n <= j < u.len() ==> #[trigger] u[j] == s[j - n - d.a + d.b]);
    if r is Wrap {
        assert forall|j: int| 0 <= j < n && keeps(r, Fact::Runs) implies !nl(#[trigger] d.t[j]) by { wrapped(r, s, i, j); }
    }
    match k {
        Fact::No(c) => { assert(forall|j: int| 0 <= j < u.len() ==> #[trigger] u[j] != c) by {
            assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] != c by { if d.a <= j < d.a + n { if r is Wrap { wrapped(r, s, i, j - d.a); } assert(d.t[j - d.a] != c); } }
        } }
        Fact::Lines => {
            assert forall|j: int| 0 <= j < u.len() implies #[trigger] line_ok(u, j) by {
                if j < d.a { assert(line_ok(s, j)); }
                else if j < d.a + n {
                    if r is Wrap { let m = j - d.a; wrapped(r, s, i, m); if m > 0 { wrapped(r, s, i, m - 1); } let g = inner(pat_of(r), s, i)->Some_0; let l = r->Wrap_1.len();
                        if m > 0 { assert(u[j - 1] == d.t[m - 1]); assert(!nl(d.t[m - 1])); } else { assert(d.t[0] == r->Wrap_1[0]); } }
                    else { assert(!nb(d.t[j - d.a])); }
                } else {
                    let m = j - n - d.a + d.b;
                    assert(u[j] == s[m]);
                    assert(line_ok(s, m));
                    if m == d.b {
                        if r is Wrap { wrapped(r, s, i, n - 1); }
                        if n > 0 { assert(u[j - 1] == d.t[n - 1]); }
                        match pat_of(r) {
                            Pat::BlankLines => { line_end_in(s, i, ws_run(s, i)); assert(nl(s[d.b])); }
                            Pat::Joins | Pat::Ends3 | Pat::FirstEnds => { assert(nl(s[d.b - 1])); }
                            Pat::LastEnds => {}
                            _ => { assert(n > 0 && !nl(d.t[n - 1])); }
                        }
                    } else { assert(u[j - 1] == s[m - 1]); }
                }
            }
        }
        Fact::Runs => {
            if r is Wrap { wrapped(r, s, i, 0); }
            assert(n > 0);
            assert forall|j: int| 0 <= j < u.len() - 2 implies !#[trigger] run3(u, j) by {
                if run3(u, j) {
                    assert(!nl(u[d.a]));
                    if j + 2 < d.a { assert(run3(s, j)); }
                    else if j >= d.a + n { assert(run3(s, j - n - d.a + d.b)); }
                    else { if j >= d.a { assert(!nl(d.t[j - d.a])); } else if j + 1 >= d.a { assert(!nl(d.t[j + 1 - d.a])); } else { assert(!nl(d.t[j + 2 - d.a])); } }
                }
            }
        }
        Fact::Ends => {
            if r is Wrap { wrapped(r, s, i, 0); wrapped(r, s, i, n - 1); }
            assert(n > 0);
            assert(!nl(d.t[0]) && !nl(d.t[n - 1]));
            assert(u[0] == if d.a == 0 { d.t[0] } else { s[0] });
            assert(u.last() == if d.b == s.len() { d.t[n - 1] } else { s.last() });
        }
    }
}
pub proof fn rewrite_keeps(r: Step, k: Fact, s: Seq<char>, off: int)
    requires 0 <= off <= s.len(), keeps(r, k), holds(k, s), r matches Step::Wrap(p, _, _) ==> p is Doubles || p is Lows || p is Singles,
    ensures holds(k, rewrite(r, s, off)),
    decreases s.len() - off,
{
    let i = first(pat_of(r), s, off);
    if i >= 0 {
        first_facts(pat_of(r), s, off);
        edit_facts(r, s, off);
        edit_keeps(r, k, s, i);
        let d = edit(r, s, i);
        rewrite_keeps(r, k, apply(s, d), d.a + d.t.len());
    }
}
// The steps that take a character out.
pub proof fn takes_out(p: Pat, t: Seq<char>, c: char, s: Seq<char>, off: int)
    requires
        (p is Returns && c == '\r') || (p is Tab && c == '\t') || (p is Nul && c == '\0'), lacks(t, c), 0 <= off <= s.len(),
        forall|i: int| 0 <= i < off ==> #[trigger] s[i] != c,
    ensures holds(Fact::No(c), rewrite(Step::Swap(p, t), s, off)),
    decreases s.len() - off,
{
    let r = Step::Swap(p, t);
    let i = first(p, s, off);
    first_facts(p, s, off);
    assert forall|j: int| off <= j < s.len() && (j < i || i < 0) implies #[trigger] s[j] != c by { assert(end_at(p, s, j) < 0); }
    if i >= 0 {
        edit_facts(r, s, off);
        let d = edit(r, s, i);
        let u = apply(s, d);
        assert forall|j: int| 0 <= j < d.a + d.t.len() implies #[trigger] u[j] != c by { if j < d.a { assert(u[j] == s[j]); } else { assert(u[j] == t[j - d.a]); } }
        takes_out(p, t, c, u, d.a + t.len());
    }
}
pub proof fn blanks_clear(s: Seq<char>, off: int)
    requires 0 <= off <= s.len(), forall|i: int| 0 <= i < off ==> #[trigger] line_ok(s, i), off < s.len() ==> off == 0 || line_ok(s, off),
    ensures holds(Fact::Lines, rewrite(Step::Blanks, s, off)),
    decreases s.len() - off,
{
    let i = first(Pat::Leading, s, off);
    first_facts(Pat::Leading, s, off);
    if i < 0 {
        assert forall|j: int| off <= j < s.len() implies #[trigger] line_ok(s, j) by { assert(end_at(Pat::Leading, s, j) < 0); runs_end(s, j); }
    } else {
        edit_facts(Step::Blanks, s, off);
        runs_end(s, i);
        let d = edit(Step::Blanks, s, i);
        let u = apply(s, d);
        assert forall|j: int| 0 <= j <= d.b && j < u.len() implies #[trigger] line_ok(u, j) by {
            if j < d.a { if j >= off { assert(end_at(Pat::Leading, s, j) < 0); runs_end(s, j); } assert(line_ok(s, j)); assert(u[j] == s[j]); if j > 0 { assert(u[j - 1] == s[j - 1]); } }
            else if j < d.b { assert(u[j] == ' '); } else { assert(u[j] == s[j]); }
        }
        blanks_clear(u, d.a + d.t.len());
    }
}
pub proof fn runs_clear(s: Seq<char>, off: int)
    requires
        0 <= off <= s.len(), forall|i: int| 0 <= i < off && i < s.len() - 2 ==> !#[trigger] run3(s, i),
        0 < off < s.len() ==> !nl(s[off]),
    ensures holds(Fact::Runs, rewrite(Step::Swap(Pat::Ends3, seq!['\n', '\n']), s, off)),
    decreases s.len() - off,
{
    let r = Step::Swap(Pat::Ends3, seq!['\n', '\n']);
    let i = first(Pat::Ends3, s, off);
    first_facts(Pat::Ends3, s, off);
    assert forall|j: int| off <= j < s.len() - 2 && (j < i || i < 0) implies !#[trigger] run3(s, j) by {
        assert(end_at(Pat::Ends3, s, j) < 0);
        reveal_with_fuel(ends_run, 4);
        if run3(s, j) { runs_end(s, j + 3); }
    }
    if i >= 0 {
        edit_facts(r, s, off);
        runs_end(s, i);
        let d = edit(r, s, i);
        let u = apply(s, d);
        if i > off && nl(s[i - 1]) { assert(ends_run(s, i - 1) == ends_run(s, i)); assert(end_at(Pat::Ends3, s, i - 1) >= 0); }
        if i == off && off > 0 { assert(nl(s[i])); }
        assert(i > 0 ==> !nl(s[i - 1]));
        assert forall|j: int| 0 <= j < d.a + 2 && j < u.len() - 2 implies !#[trigger] run3(u, j) by {
            if j < i - 2 { assert(!run3(s, j)); assert(u[j] == s[j] && u[j + 1] == s[j + 1] && u[j + 2] == s[j + 2]); }
            else if j == i - 2 { assert(u[j + 1] == s[j + 1]); }
            else if j == i - 1 { assert(u[j] == s[j]); }
            else { assert(u[i + 2] == s[d.b]); }
        }
        assert(d.a + 2 < u.len() ==> u[d.a + 2] == s[d.b]);
        runs_clear(u, d.a + 2);
    }
}
pub proof fn trim_first(s: Seq<char>)
    ensures ({
        let u = rewrite(Step::Swap(Pat::FirstEnds, Seq::empty()), s, 0);
        &&& u == s.skip(ends_run(s, 0)) && (u.len() > 0 ==> !nl(u[0]))
        &&& holds(Fact::Runs, s) ==> holds(Fact::Runs, u)
    }),
{
    let r = Step::Swap(Pat::FirstEnds, Seq::empty());
    let i = first(Pat::FirstEnds, s, 0);
    first_facts(Pat::FirstEnds, s, 0);
    runs_end(s, 0);
    let k = ends_run(s, 0);
    if i >= 0 {
        edit_facts(r, s, 0);
        let u = apply(s, edit(r, s, i));
        assert(u =~= s.skip(k));
        assert(edit(r, s, i).a == 0);
        assert(rewrite(r, s, 0) == rewrite(r, u, 0));
        first_facts(Pat::FirstEnds, u, 0);
        runs_end(u, 0);
        assert(first(Pat::FirstEnds, u, 0) < 0);
    } else if s.len() > 0 { assert(end_at(Pat::FirstEnds, s, 0) < 0); assert(s.skip(0) =~= s); }
    else { assert(s.skip(0) =~= s); }
    let u = s.skip(k);
    assert forall|j: int| holds(Fact::Runs, s) && 0 <= j < u.len() - 2 implies !#[trigger] run3(u, j) by { assert(!run3(s, j + k)); }
}
pub proof fn trim_last(s: Seq<char>)
    ensures ({
        let u = rewrite(Step::Swap(Pat::LastEnds, Seq::empty()), s, 0);
        &&& u.len() <= s.len() && u == s.take(u.len() as int) && (u.len() > 0 ==> !nl(u.last())) && (forall|j: int| u.len() <= j < s.len() ==> nl(#[trigger] s[j]))
        &&& holds(Fact::Runs, s) ==> holds(Fact::Runs, u)
        &&& u.len() > 0 ==> u[0] == s[0]
    }),
{
    let p = Pat::LastEnds;
    let r = Step::Swap(p, Seq::empty());
    let i = first(p, s, 0);
    first_facts(p, s, 0);
    let u = rewrite(r, s, 0);
    if i >= 0 {
        edit_facts(r, s, 0);
        runs_end(s, i);
        let v = apply(s, edit(r, s, i));
        assert(v =~= s.take(i));
        if i > 0 { assert(end_at(p, s, i - 1) < 0); if nl(s[i - 1]) { assert(ends_run(s, i - 1) == ends_run(s, i)); } }
        assert(rewrite(r, v, i) == v) by { first_facts(p, v, i); }
        assert(u == v);
    } else {
        if s.len() > 0 { let j = s.len() - 1; assert(end_at(p, s, j) < 0); reveal_with_fuel(ends_run, 2); assert(!nl(s[j])); }
        assert(s.take(s.len() as int) =~= s);
    }
    assert forall|j: int| holds(Fact::Runs, s) && 0 <= j < u.len() - 2 implies !#[trigger] run3(u, j) by { assert(!run3(s, j)); }
}
// What is promised of every preprocessed text.
pub open spec fn normal(s: Seq<char>) -> bool {
    holds(Fact::No('\r'), s) && holds(Fact::No('\t'), s) && holds(Fact::No('\0'), s) && holds(Fact::Lines, s) && holds(Fact::Runs, s) && holds(Fact::Ends, s)
}
pub proof fn white_is_normal(s: Seq<char>)
    ensures normal(white(s)),
{
    let r1 = Step::Swap(Pat::Returns, seq!['\n']);
    let s1 = rewrite(r1, s, 0);
    takes_out(Pat::Returns, seq!['\n'], '\r', s, 0);
    let r2 = Step::Blanks;
    let s2 = rewrite(r2, s1, 0);
    rewrite_keeps(r2, Fact::No('\r'), s1, 0);
    blanks_clear(s1, 0);
    let r3 = Step::Swap(Pat::BlankLines, Seq::empty());
    let s3 = rewrite(r3, s2, 0);
    rewrite_keeps(r3, Fact::No('\r'), s2, 0); rewrite_keeps(r3, Fact::Lines, s2, 0);
    let r4 = Step::Swap(Pat::Joins, Seq::empty());
    let s4 = rewrite(r4, s3, 0);
    rewrite_keeps(r4, Fact::No('\r'), s3, 0); rewrite_keeps(r4, Fact::Lines, s3, 0);
    let r5 = Step::Swap(Pat::Tab, seq![' ', ' ', ' ', ' ']);
    let s5 = rewrite(r5, s4, 0);
    rewrite_keeps(r5, Fact::No('\r'), s4, 0); rewrite_keeps(r5, Fact::Lines, s4, 0);
    takes_out(Pat::Tab, seq![' ', ' ', ' ', ' '], '\t', s4, 0);
    let r6 = Step::Swap(Pat::Nul, seq![' ']);
    let s6 = rewrite(r6, s5, 0);
    rewrite_keeps(r6, Fact::No('\r'), s5, 0); rewrite_keeps(r6, Fact::No('\t'), s5, 0); rewrite_keeps(r6, Fact::Lines, s5, 0);
    takes_out(Pat::Nul, seq![' '], '\0', s5, 0);
    let r7 = Step::Swap(Pat::Ends3, seq!['\n', '\n']);
    let s7 = rewrite(r7, s6, 0);
    rewrite_keeps(r7, Fact::No('\r'), s6, 0); rewrite_keeps(r7, Fact::No('\t'), s6, 0); rewrite_keeps(r7, Fact::No('\0'), s6, 0); rewrite_keeps(r7, Fact::Lines, s6, 0);
    runs_clear(s6, 0);
    let r8 = Step::Swap(Pat::FirstEnds, Seq::empty());
    let s8 = rewrite(r8, s7, 0);
    rewrite_keeps(r8, Fact::No('\r'), s7, 0); rewrite_keeps(r8, Fact::No('\t'), s7, 0); rewrite_keeps(r8, Fact::No('\0'), s7, 0); rewrite_keeps(r8, Fact::Lines, s7, 0);
    trim_first(s7);
    let r9 = Step::Swap(Pat::LastEnds, Seq::empty());
    rewrite_keeps(r9, Fact::No('\r'), s8, 0); rewrite_keeps(r9, Fact::No('\t'), s8, 0); rewrite_keeps(r9, Fact::No('\0'), s8, 0); rewrite_keeps(r9, Fact::Lines, s8, 0);
    trim_last(s8);
}
pub proof fn all_kept(r: Step, s: Seq<char>)
    requires normal(s), inline(r), keeps(r, Fact::No('\r')), keeps(r, Fact::No('\t')), keeps(r, Fact::No('\0')), keeps(r, Fact::Lines),
    ensures normal(rewrite(r, s, 0)),
{
    rewrite_keeps(r, Fact::No('\r'), s, 0); rewrite_keeps(r, Fact::No('\t'), s, 0); rewrite_keeps(r, Fact::No('\0'), s, 0);
    rewrite_keeps(r, Fact::Lines, s, 0); rewrite_keeps(r, Fact::Runs, s, 0); rewrite_keeps(r, Fact::Ends, s, 0);
}
pub proof fn typo_is_normal(s: Seq<char>)
    requires normal(s),
    ensures normal(typo(s)),
{
    let r1 = Step::Wrap(Pat::Doubles, seq!['\u{201c}'], seq!['\u{201d}']);
    all_kept(r1, s);
    let s = rewrite(r1, s, 0);
    let r2 = Step::Wrap(Pat::Lows, seq!['\u{201e}'], seq!['\u{201d}']);
    all_kept(r2, s);
    let s = rewrite(r2, s, 0);
    let r3 = Step::Wrap(Pat::Singles, seq!['\u{2018}'], seq!['\u{2019}']);
    all_kept(r3, s);
    let s = rewrite(r3, s, 0);
    all_kept(Step::Swap(Pat::Dots, seq!['\u{2026}']), s);
}
// ---- regex ----
#[verifier::external_body]
pub struct Regex { v: () }
#[verifier::external_body]
pub struct Captures<'t> { v: &'t str }
#[verifier::external_body]
pub struct Match<'t> { v: &'t str }
impl Regex { pub uninterp spec fn pat(&self) -> Pat; }
impl<'t> Captures<'t> {
    pub uninterp spec fn pat(&self) -> Pat;
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn at(&self) -> int;
    pub open spec fn group(&self, m: Match<'t>, g: (int, int)) -> bool { m.text() == self.text() && m.a() == g.0 && m.b() == g.1 }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Match<'t>>)
        ensures
            i == 0 ==> r is Some && self.group(r->Some_0, (self.at(), end_at(self.pat(), self.text(), self.at()))),
            i == 1 ==> match inner(self.pat(), self.text(), self.at()) { Some(g) => r is Some && self.group(r->Some_0, g), None => self.pat() is Dots || r is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_named(&self) -> (r: Option<Match<'t>>)
        ensures match named(self.pat(), self.text(), self.at()) { Some(g) => r is Some && self.group(r->Some_0, g), None => r is None },
    { unimplemented!() }
}
impl<'t> Match<'t> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn a(&self) -> int;
    pub uninterp spec fn b(&self) -> int;
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == bi(self.text(), self.a()) { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self) -> (r: core::ops::Range<usize>) ensures r.start == bi(self.text(), self.a()), r.end == bi(self.text(), self.b()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == bi(self.text(), self.b()) - bi(self.text(), self.a()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'t str) ensures r@ == self.text().subrange(self.a(), self.b()) { unimplemented!() }
}
impl Regex {
    #[verifier::external_body]
    pub fn vf_captures_at<'t>(&self, text: &'t str, offset: usize) -> (r: Option<Captures<'t>>)
        requires is_b(text@, offset as nat),
        ensures match r {
            Some(c) => first(self.pat(), text@, ci(text@, offset as nat)) >= 0 && c.pat() == self.pat() && c.text() == text@ && c.at() == first(self.pat(), text@, ci(text@, offset as nat)),
            None => first(self.pat(), text@, ci(text@, offset as nat)) < 0,
        },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_regex(p: Pat) -> (r: Regex) ensures r.pat() == p { unimplemented!() }
#[verifier::external_body]
pub fn vf_spaces(n: usize) -> (r: String) ensures r@ == spaces(n as int) { unimplemented!() }
pub proof fn spaces_len(n: int)
    requires n >= 0,
    ensures len8(spaces(n)) == n,
    decreases n,
{ if n > 0 { spaces_len(n - 1); assert(spaces(n).drop_last() =~= spaces(n - 1)); } }
// Byte offsets before and behind an edit.
pub proof fn edit_bytes(s: Seq<char>, a: int, b: int, t: Seq<char>)
    requires 0 <= a <= b <= s.len(),
    ensures ({
        let u = s.take(a) + t + s.skip(b);
        &&& bi(u, a + t.len()) == bi(s, a) + len8(t)
        &&& is_b(u, bi(u, a + t.len())) && ci(u, bi(u, a + t.len())) == a + t.len()
        &&& is_b(s, bi(s, a)) && is_b(s, bi(s, b)) && ci(s, bi(s, a)) == a && ci(s, bi(s, b)) == b && bi(s, a) <= bi(s, b) <= len8(s)
    }),
{
    let u = s.take(a) + t + s.skip(b);
    assert(u.take(a + t.len()) =~= s.take(a) + t);
    len8_add(s.take(a), t);
    ci_bi(u, a + t.len());
    ci_bi(s, a); ci_bi(s, b);
    len8_mono(s, a, b); len8_mono(s, b, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
#[verifier::external_body]
pub proof fn string_fits(s: String)
    ensures len8(s@) <= isize::MAX,
{ }
pub proof fn ci_of(s: Seq<char>, k: nat)
    requires is_b(s, k),
    ensures 0 <= ci(s, k) <= s.len(), bi(s, ci(s, k)) == k,
{ }
// At least a byte for each character, and two for each of a run of non-breaking spaces.
pub proof fn bi_run(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures bi(s, b) >= bi(s, a) + (b - a),
    decreases b - a,
{ if a < b { bi_run(s, a, b - 1); bi_step(s, b - 1); } }
//@type src/preproc/mod.rs Replacer
//@end
impl Replacer {
    pub open spec fn step(&self) -> Step {
        match *self {
            Replacer::RegexReplace { regex, replacement } => Step::Swap(regex.pat(), replacement@),
            Replacer::RegexSurround { regex, begin, end } => Step::Wrap(regex.pat(), begin@, end@),
        }
    }
    pub open spec fn wf(&self) -> bool {
        match *self {
            Replacer::RegexReplace { regex, replacement } => true,
            Replacer::RegexSurround { regex, begin, end } => (regex.pat() is Doubles || regex.pat() is Lows || regex.pat() is Singles) && len8(begin@) <= 1000 && len8(end@) <= 1000,
        }
    }
//@fn src/preproc/mod.rs @ `impl Replacer` replace
//@methods clear push_str
//@sub `while let Some(capture) = $e { $BODY }` => `loop { match $e { Some(capture) => { $BODY } None => { break; } } }`
//@sub `match *self` => `match self`
//@sub `RegexReplace { ref regex, replacement, }` => `Replacer::RegexReplace { regex, replacement }`
//@sub `RegexSurround { ref regex, begin, end, }` => `Replacer::RegexSurround { regex, begin, end }`
//@sub `use self::Replacer::*;` => ``
//@sub `regex.captures_at(text, offset)` => `regex.vf_captures_at(text.as_str(), offset)`
//@sub `capture.name("repl").unwrap_or_else(|| capture.get(0).unwrap())` => `match capture.vf_named() { Some(m) => m, None => capture.get(0).unwrap() }`
//@sub `text.replace_range($a, $b)` => `vf_replace_range(text, $a.start, $a.end, $b)`
//@sub `replacement.len()` => `replacement.x_len()`
//@sub `begin.len()` => `begin.x_len()`
//@sub `end.len()` => `end.x_len()`
//@spec
    requires self.wf(),
    ensures final(text)@ == rewrite(self.step(), old(text)@, 0),
//@pre
    proof { bi_ends(text@); }
//@loop 0
    invariant
        self matches Replacer::RegexReplace { regex: g, replacement: t } && g == regex && t == replacement,
        is_b(text@, offset as nat),
        rewrite(self.step(), text@, ci(text@, offset as nat)) == rewrite(self.step(), old(text)@, 0),
    ensures text@ == rewrite(self.step(), old(text)@, 0),
    decreases text@.len() - ci(text@, offset as nat),
//@in 0
    let ghost s0 = text@;
    proof {
        let r = self.step();
        let o = ci(s0, offset as nat);
        ci_of(s0, offset as nat);
        first_facts(pat_of(r), s0, o);
        string_fits(*text);
        str_fits(replacement);
        let i = first(pat_of(r), s0, o);
        if i >= 0 {
            edit_facts(r, s0, o);
            match_facts(pat_of(r), s0, i);
            let d = edit(r, s0, i);
            edit_bytes(s0, d.a, d.b, d.t);
            
        }
    }
//@loop 1
    invariant
        self.wf(),
        self matches Replacer::RegexSurround { regex: g, begin: l, end: e } && g == regex && l == begin && e == end,
        is_b(text@, offset as nat),
        rewrite(self.step(), text@, ci(text@, offset as nat)) == rewrite(self.step(), old(text)@, 0),
    ensures text@ == rewrite(self.step(), old(text)@, 0),
    decreases text@.len() - ci(text@, offset as nat),
//@in 1
    let ghost s0 = text@;
    proof {
        let r = self.step();
        let o = ci(s0, offset as nat);
        ci_of(s0, offset as nat);
        first_facts(pat_of(r), s0, o);
        string_fits(*text);
        
        let i = first(pat_of(r), s0, o);
        if i >= 0 {
            edit_facts(r, s0, o);
            match_facts(pat_of(r), s0, i);
            let d = edit(r, s0, i);
            edit_bytes(s0, d.a, d.b, d.t);
            let g = inner(pat_of(r), s0, i)->Some_0;
            bi_mono(s0, g.0, g.1); bi_mono(s0, i, g.0); bi_mono(s0, g.1, s0.len() as int); bi_ends(s0);
            let c = s0.subrange(g.0, g.1);
            assert(s0.take(g.1) =~= s0.take(g.0) + c);
            len8_add(s0.take(g.0), c); len8_add(begin@, c); len8_add(begin@ + c, end@);
        }
    }
//@end
}
pub proof fn lits()
    ensures
        ""@ == Seq::<char>::empty(), "\n"@ == seq!['\n'], "\n\n"@ == seq!['\n', '\n'], " "@ == seq![' '], "    "@ == seq![' ', ' ', ' ', ' '],
        "\u{2018}"@ == seq!['\u{2018}'], "\u{2019}"@ == seq!['\u{2019}'], "\u{201c}"@ == seq!['\u{201c}'], "\u{201d}"@ == seq!['\u{201d}'], "\u{201e}"@ == seq!['\u{201e}'], "\u{2026}"@ == seq!['\u{2026}'],
        forall|c: char| len8(seq![c]) <= 4,
{
    reveal_strlit(""); reveal_strlit("\n"); reveal_strlit("\n\n"); reveal_strlit(" "); reveal_strlit("    ");
    reveal_strlit("\u{2018}"); reveal_strlit("\u{2019}"); reveal_strlit("\u{201c}"); reveal_strlit("\u{201d}"); reveal_strlit("\u{201e}"); reveal_strlit("\u{2026}");
    assert(""@ =~= seq![]); assert("\n"@ =~= seq!['\n']); assert("\n\n"@ =~= seq!['\n', '\n']); assert(" "@ =~= seq![' ']); assert("    "@ =~= seq![' ', ' ', ' ', ' ']);
    assert("\u{2018}"@ =~= seq!['\u{2018}']); assert("\u{2019}"@ =~= seq!['\u{2019}']); assert("\u{201c}"@ =~= seq!['\u{201c}']); assert("\u{201d}"@ =~= seq!['\u{201d}']); assert("\u{201e}"@ =~= seq!['\u{201e}']); assert("\u{2026}"@ =~= seq!['\u{2026}']);
    assert forall|c: char| len8(seq![c]) <= 4 by { assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(len8(seq![c]) == len8(seq![c].drop_last()) + w8(c)); }
}
//@type src/preproc/whitespace.rs WHITESPACE_ONLY_LINE
//@sub `static WHITESPACE_ONLY_LINE: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: RegexBuilder::new(r"^\s+$").multi_line(true).build().unwrap(), replacement: $R, });` => `fn WHITESPACE_ONLY_LINE() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::BlankLines, seq![]), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::BlankLines), replacement: $R } }`
//@end
//@type src/preproc/whitespace.rs LEADING_NEWLINES
//@sub `static LEADING_NEWLINES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: Regex::new(r"^\n+").unwrap(), replacement: $R, });` => `fn LEADING_NEWLINES() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::FirstEnds, seq![]), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::FirstEnds), replacement: $R } }`
//@end
//@type src/preproc/whitespace.rs TRAILING_NEWLINES
//@sub `static TRAILING_NEWLINES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: Regex::new(r"\n+$").unwrap(), replacement: $R, });` => `fn TRAILING_NEWLINES() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::LastEnds, seq![]), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::LastEnds), replacement: $R } }`
//@end
//@type src/preproc/whitespace.rs DOS_MAC_NEWLINES
//@sub `static DOS_MAC_NEWLINES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: Regex::new(r"\r\n?").unwrap(), replacement: $R, });` => `fn DOS_MAC_NEWLINES() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::Returns, seq!['\n']), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::Returns), replacement: $R } }`
//@end
//@type src/preproc/whitespace.rs CONCAT_LINES
//@sub `static CONCAT_LINES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: Regex::new(r"\\\n").unwrap(), replacement: $R, });` => `fn CONCAT_LINES() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::Joins, seq![]), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::Joins), replacement: $R } }`
//@end
//@type src/preproc/whitespace.rs TABS
//@sub `static TABS: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: Regex::new("\t").unwrap(), replacement: $R, });` => `fn TABS() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::Tab, seq![' ', ' ', ' ', ' ']), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::Tab), replacement: $R } }`
//@end
//@type src/preproc/whitespace.rs NULL_SPACE
//@sub `static NULL_SPACE: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: Regex::new("\0").unwrap(), replacement: $R, });` => `fn NULL_SPACE() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::Nul, seq![' ']), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::Nul), replacement: $R } }`
//@end
//@type src/preproc/whitespace.rs COMPRESS_NEWLINES
//@sub `static COMPRESS_NEWLINES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: Regex::new(r"\n{3,}").unwrap(), replacement: $R, });` => `fn COMPRESS_NEWLINES() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::Ends3, seq!['\n', '\n']), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::Ends3), replacement: $R } }`
//@end
//@type src/preproc/whitespace.rs LEADING_NONSTANDARD_WHITESPACE
//@sub `static LEADING_NONSTANDARD_WHITESPACE: Lazy<Regex> = Lazy::new(|| { RegexBuilder::new("^[\u{00a0}\u{2007}]+").multi_line(true).build().unwrap() });` => `fn LEADING_NONSTANDARD_WHITESPACE() -> (r: Regex) ensures r.pat() == Pat::Leading { vf_regex(Pat::Leading) }`
//@end
//@type src/preproc/typography.rs SINGLE_QUOTES
//@sub `static SINGLE_QUOTES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexSurround { regex: Regex::new(r"`(.*?)'").unwrap(), begin: $B, end: $E, });` => `fn SINGLE_QUOTES() -> (r: Replacer) ensures r.step() == Step::Wrap(Pat::Singles, seq!['\u{2018}'], seq!['\u{2019}']), r.wf() { proof { lits(); } Replacer::RegexSurround { regex: vf_regex(Pat::Singles), begin: $B, end: $E } }`
//@end
//@type src/preproc/typography.rs DOUBLE_QUOTES
//@sub `static DOUBLE_QUOTES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexSurround { regex: Regex::new(r"``(.*?)''").unwrap(), begin: $B, end: $E, });` => `fn DOUBLE_QUOTES() -> (r: Replacer) ensures r.step() == Step::Wrap(Pat::Doubles, seq!['\u{201c}'], seq!['\u{201d}']), r.wf() { proof { lits(); } Replacer::RegexSurround { regex: vf_regex(Pat::Doubles), begin: $B, end: $E } }`
//@end
//@type src/preproc/typography.rs LOW_DOUBLE_QUOTES
//@sub `static LOW_DOUBLE_QUOTES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexSurround { regex: Regex::new(r",,(.*?)''").unwrap(), begin: $B, end: $E, });` => `fn LOW_DOUBLE_QUOTES() -> (r: Replacer) ensures r.step() == Step::Wrap(Pat::Lows, seq!['\u{201e}'], seq!['\u{201d}']), r.wf() { proof { lits(); } Replacer::RegexSurround { regex: vf_regex(Pat::Lows), begin: $B, end: $E } }`
//@end
//@type src/preproc/typography.rs HORIZONTAL_ELLIPSIS
//@sub `static HORIZONTAL_ELLIPSIS: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace { regex: Regex::new(r"(?:^|[^\.])(?<repl>(\.\.|\. \. )\.)(?:[^\.]|$)").unwrap(), replacement: $R, });` => `fn HORIZONTAL_ELLIPSIS() -> (r: Replacer) ensures r.step() == Step::Swap(Pat::Dots, seq!['\u{2026}']), r.wf() { proof { lits(); } Replacer::RegexReplace { regex: vf_regex(Pat::Dots), replacement: $R } }`
//@end
//@fn src/preproc/whitespace.rs replace_leading_spaces
//@sub `while let Some(capture) = $e { $BODY }` => `loop { match $e { Some(capture) => { $BODY } None => { break; } } }`
//@sub `LEADING_NONSTANDARD_WHITESPACE.captures_at(text, offset)` => `LEADING_NONSTANDARD_WHITESPACE().vf_captures_at(text.as_str(), offset)`
//@sub `mtch.as_str().chars().count()` => `mtch.as_str().x_chars().len()`
//@sub `" ".repeat(count)` => `vf_spaces(count)`
//@sub `let spaces =` => `let spaces: String =`
//@sub `text.replace_range(mtch.range(), &spaces)` => `vf_replace_range(text, mtch.range().start, mtch.range().end, &spaces)`
//@spec
    ensures final(text)@ == rewrite(Step::Blanks, old(text)@, 0),
//@pre
    proof { bi_ends(text@); }
//@loop 0
    invariant
        is_b(text@, offset as nat),
        rewrite(Step::Blanks, text@, ci(text@, offset as nat)) == rewrite(Step::Blanks, old(text)@, 0),
    ensures text@ == rewrite(Step::Blanks, old(text)@, 0),
    decreases text@.len() - ci(text@, offset as nat),
//@in 0
    let ghost s0 = text@;
    proof {
        let r = Step::Blanks;
        let o = ci(s0, offset as nat);
        ci_of(s0, offset as nat);
        first_facts(pat_of(r), s0, o);
        string_fits(*text);
        
        let i = first(pat_of(r), s0, o);
        if i >= 0 {
            edit_facts(r, s0, o);
            match_facts(pat_of(r), s0, i);
            let d = edit(r, s0, i);
            edit_bytes(s0, d.a, d.b, d.t);
            spaces_len(d.b - d.a); runs_end(s0, i); bi_run(s0, d.a, d.b);
        }
    }
//@end
//@fn src/preproc/whitespace.rs substitute
//@rename whitespace_substitute
//@sub `macro_rules! replace { ($replacer:expr) => { $$replacer.replace(text, &mut buffer) }; }` => ``
//@sub `replace!($X);` => `$X().replace(text, &mut buffer);`
//@spec
    ensures final(text)@ == white(old(text)@),
//@end
//@fn src/preproc/typography.rs substitute
//@rename typography_substitute
//@sub `macro_rules! replace { ($replacer:expr) => { $$replacer.replace(text, &mut buffer) }; }` => ``
//@sub `replace!($X);` => `$X().replace(text, &mut buffer);`
//@spec
    ensures final(text)@ == typo(old(text)@),
//@end
//@fn src/preproc/mod.rs preprocess
//@sub `whitespace::substitute` => `whitespace_substitute`
//@sub `typography::substitute` => `typography_substitute`
//@spec
    ensures final(text)@ == typo(white(old(text)@)), normal(final(text)@),
//@post
    proof { white_is_normal(old(text)@); typo_is_normal(white(old(text)@)); }
//@end
