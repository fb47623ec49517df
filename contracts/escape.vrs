// C02: text put into HTML is escaped, character by character and nothing else.
pub open spec fn esc_char(c: char) -> Seq<char> {
    if c == '<' { seq!['&', 'l', 't', ';'] }
    else if c == '>' { seq!['&', 'g', 't', ';'] }
    else if c == '&' { seq!['&', 'a', 'm', 'p', ';'] }
    else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] }
    else if c == '\'' { seq!['&', '#', '3', '9', ';'] }
    else if c == '\0' { seq![' '] }
    else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc_char(s.last()) }
}

//@fn src/render/html/escape.rs escape_char r
//@spec
    ensures
        match r { Some(s) => s@ == esc_char(c), None => esc_char(c) == seq![c] },
//@pre
    proof {
        reveal_strlit("&gt;"); reveal_strlit("&lt;"); reveal_strlit("&amp;");
        reveal_strlit("&#39;"); reveal_strlit("&quot;"); reveal_strlit(" ");
        assert("&gt;"@ =~= seq!['&', 'g', 't', ';']);
        assert("&lt;"@ =~= seq!['&', 'l', 't', ';']);
        assert("&amp;"@ =~= seq!['&', 'a', 'm', 'p', ';']);
        assert("&#39;"@ =~= seq!['&', '#', '3', '9', ';']);
        assert("&quot;"@ =~= seq!['&', 'q', 'u', 'o', 't', ';']);
        assert(" "@ =~= seq![' ']);
    }
//@end

//@fn src/render/html/escape.rs escape
//@spec
    ensures
        final(buffer)@ == old(buffer)@ + esc(s@),
//@loop 0 it
    invariant
        it.seq() == s@,
        buffer@ == old(buffer)@ + esc(s@.take(it.index())),
//@in 0
    proof {
        assert(s@.take(it.index() + 1).drop_last() =~= s@.take(it.index()));
        assert(s@.take(it.index() + 1).last() == s@[it.index()]);
        assert(esc(s@.take(it.index() + 1)) == esc(s@.take(it.index())) + esc_char(s@[it.index()]));
    }
//@after 0
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@pre
    proof { assert(s@.take(0) =~= Seq::<char>::empty()); assert(old(buffer)@ + Seq::<char>::empty() =~= old(buffer)@); }
//@tail 0
    proof {
        assert(buffer@ =~= old(buffer)@ + esc(s@.take(it.index() + 1)));
    }
//@end

// Nothing that could end a text node or a quoted attribute survives escaping.
pub proof fn escaped_text_is_inert(s: Seq<char>)
    ensures
        forall|i: int| 0 <= i < esc(s).len() ==> #[trigger] esc(s)[i] != '<' && esc(s)[i] != '>' && esc(s)[i] != '"' && esc(s)[i] != '\'' && esc(s)[i] != '\0',
    decreases s.len(),
{
    if s.len() > 0 {
        escaped_text_is_inert(s.drop_last());
        let (a, b) = (esc(s.drop_last()), esc_char(s.last()));
        assert(esc(s) == a + b);
        assert forall|i: int| 0 <= i < esc(s).len() implies #[trigger] esc(s)[i] != '<' && esc(s)[i] != '>' && esc(s)[i] != '"' && esc(s)[i] != '\'' && esc(s)[i] != '\0' by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
}
