//@use strx
//@import escape
// HTML as a reader of it sees it: where it stands, and which elements are open.
pub enum Mode { Text, Lt, Open(Seq<char>), Space(Seq<char>), Key(Seq<char>), Eq(Seq<char>), Value(Seq<char>), After(Seq<char>), Close(Seq<char>), Bad }
// ent: within a character reference
pub struct Doc { pub mode: Mode, pub stack: Seq<Seq<char>>, pub ent: bool }
pub open spec fn alnum(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' }
pub open spec fn key_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) }
pub open spec fn name_ok(s: Seq<char>) -> bool { s.len() > 0 && key_ok(s) }
// Elements whose contents are not markup, and those which have none.
pub open spec fn raw(n: Seq<char>) -> bool {
    (n.len() == 5 && n[0] == 's' && n[1] == 't' && n[2] == 'y' && n[3] == 'l' && n[4] == 'e')
    || (n.len() == 6 && n[0] == 's' && n[1] == 'c' && n[2] == 'r' && n[3] == 'i' && n[4] == 'p' && n[5] == 't')
}
pub open spec fn void(n: Seq<char>) -> bool {
    if n.len() == 2 { (n[0] == 'b' && n[1] == 'r') || (n[0] == 'h' && n[1] == 'r') }
    else if n.len() == 3 { (n[0] == 'c' && n[1] == 'o' && n[2] == 'l') || (n[0] == 'i' && n[1] == 'm' && n[2] == 'g') || (n[0] == 'w' && n[1] == 'b' && n[2] == 'r') }
    else if n.len() == 4 {
        (n[0] == 'a' && n[1] == 'r' && n[2] == 'e' && n[3] == 'a') || (n[0] == 'b' && n[1] == 'a' && n[2] == 's' && n[3] == 'e')
        || (n[0] == 'l' && n[1] == 'i' && n[2] == 'n' && n[3] == 'k') || (n[0] == 'm' && n[1] == 'e' && n[2] == 't' && n[3] == 'a')
    }
    else if n.len() == 5 {
        (n[0] == 'e' && n[1] == 'm' && n[2] == 'b' && n[3] == 'e' && n[4] == 'd') || (n[0] == 'i' && n[1] == 'n' && n[2] == 'p' && n[3] == 'u' && n[4] == 't')
        || (n[0] == 'p' && n[1] == 'a' && n[2] == 'r' && n[3] == 'a' && n[4] == 'm') || (n[0] == 't' && n[1] == 'r' && n[2] == 'a' && n[3] == 'c' && n[4] == 'k')
    }
    else { n.len() == 6 && n[0] == 's' && n[1] == 'o' && n[2] == 'u' && n[3] == 'r' && n[4] == 'c' && n[5] == 'e' }
}
pub open spec fn inside_raw(o: Doc) -> bool { o.stack.len() > 0 && raw(o.stack.last()) }
pub open spec fn at(o: Doc, m: Mode) -> Doc { Doc { mode: m, stack: o.stack, ent: false } }
pub open spec fn opened(o: Doc, n: Seq<char>) -> Doc { if void(n) { at(o, Mode::Text) } else { Doc { mode: Mode::Text, stack: o.stack.push(n), ent: false } } }
pub open spec fn reference(o: Doc, c: char) -> Doc {
    if c == ';' { Doc { ent: false, ..o } } else if alnum(c) || c == '#' { o } else { at(o, Mode::Bad) }
}
pub open spec fn step(o: Doc, c: char) -> Doc {
    match o.mode {
        Mode::Text => if inside_raw(o) { if c == '<' { at(o, Mode::Lt) } else { o } }
            else if o.ent { reference(o, c) }
            else if c == '<' { at(o, Mode::Open(seq![])) } else if c == '>' || c == '\0' { at(o, Mode::Bad) } else if c == '&' { Doc { ent: true, ..o } } else { o },
        Mode::Lt => if c == '/' { at(o, Mode::Close(seq![])) } else if c == '<' { o } else { at(o, Mode::Text) },
        Mode::Open(n) => if alnum(c) { at(o, Mode::Open(n.push(c))) } else if c == '/' && n.len() == 0 { at(o, Mode::Close(n)) }
            else if n.len() == 0 { at(o, Mode::Bad) } else if c == ' ' { at(o, Mode::Space(n)) } else if c == '>' { opened(o, n) } else { at(o, Mode::Bad) },
        Mode::Space(n) => if alnum(c) { at(o, Mode::Key(n)) } else { at(o, Mode::Bad) },
        Mode::Key(n) => if alnum(c) { o } else if c == ' ' { at(o, Mode::Space(n)) } else if c == '=' { at(o, Mode::Eq(n)) } else if c == '>' { opened(o, n) } else { at(o, Mode::Bad) },
        Mode::Eq(n) => if c == '"' { at(o, Mode::Value(n)) } else { at(o, Mode::Bad) },
        Mode::Value(n) => if o.ent { reference(o, c) } else if c == '"' { at(o, Mode::After(n)) } else if c == '<' || c == '>' || c == '\'' || c == '\0' { at(o, Mode::Bad) } else if c == '&' { Doc { ent: true, ..o } } else { o },
        Mode::After(n) => if c == ' ' { at(o, Mode::Space(n)) } else if c == '>' { opened(o, n) } else { at(o, Mode::Bad) },
        Mode::Close(n) => if alnum(c) { at(o, Mode::Close(n.push(c))) }
            else if c == '>' && o.stack.len() > 0 && o.stack.last() == n { Doc { mode: Mode::Text, stack: o.stack.drop_last(), ent: false } } else { at(o, Mode::Bad) },
        Mode::Bad => o,
    }
}
pub open spec fn doc_run(o: Doc, s: Seq<char>) -> Doc
    decreases s.len(),
{ if s.len() == 0 { o } else { step(doc_run(o, s.drop_last()), s.last()) } }
pub open spec fn blank() -> Doc { Doc { mode: Mode::Text, stack: seq![], ent: false } }
// What has been written so far.
#[verifier::opaque]
pub open spec fn doc_read(s: Seq<char>) -> Doc { doc_run(blank(), s) }
// Between elements, or in the text of one.
pub open spec fn text_at(o: Doc) -> bool { o.mode is Text && !o.ent && !inside_raw(o) }
// In a start tag with this name, where an attribute or the end of it may follow.
pub open spec fn tagging(o: Doc, n: Seq<char>) -> bool { !o.ent && (o.mode == Mode::Open(n) || o.mode == Mode::Key(n) || o.mode == Mode::After(n)) }
pub proof fn doc_add(o: Doc, a: Seq<char>, b: Seq<char>)
    ensures doc_run(o, a + b) == doc_run(doc_run(o, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { doc_add(o, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn doc_empty()
    ensures doc_read(Seq::empty()) == blank(),
{ reveal(doc_read); }
pub proof fn doc_push(s: Seq<char>, c: char)
    ensures doc_read(s.push(c)) == step(doc_read(s), c),
{ reveal(doc_read); assert(s.push(c).drop_last() =~= s); }
pub proof fn doc_more(s: Seq<char>, t: Seq<char>)
    ensures doc_read(s + t) == doc_run(doc_read(s), t),
{ reveal(doc_read); doc_add(blank(), s, t); }
// A name in a tag.
pub proof fn doc_open(o: Doc, s: Seq<char>)
    requires o.mode == Mode::Open(seq![]), !o.ent, key_ok(s),
    ensures doc_run(o, s) == at(o, Mode::Open(s)),
    decreases s.len(),
{
    if s.len() > 0 { doc_open(o, s.drop_last()); assert(alnum(s.last())); assert(s.drop_last().push(s.last()) =~= s); } else { assert(s =~= seq![]); }
}
pub proof fn doc_close(o: Doc, s: Seq<char>)
    requires o.mode == Mode::Close(seq![]), !o.ent, key_ok(s),
    ensures doc_run(o, s) == at(o, Mode::Close(s)),
    decreases s.len(),
{
    if s.len() > 0 { doc_close(o, s.drop_last()); assert(alnum(s.last())); assert(s.drop_last().push(s.last()) =~= s); } else { assert(s =~= seq![]); }
}
pub proof fn doc_key(o: Doc, n: Seq<char>, s: Seq<char>)
    requires o.mode == Mode::Space(n), !o.ent, name_ok(s),
    ensures doc_run(o, s) == at(o, Mode::Key(n)),
    decreases s.len(),
{
    assert(alnum(s.last()));
    assert(doc_run(o, s) == step(doc_run(o, s.drop_last()), s.last()));
    if s.len() > 1 { doc_key(o, n, s.drop_last()); } else { assert(s.drop_last().len() == 0); }
}
pub proof fn doc_one(o: Doc, c: char)
    ensures doc_run(o, seq![c]) == step(o, c),
{ let s = seq![c]; assert(s.drop_last() =~= seq![]); assert(s.last() == c); assert(doc_run(o, s.drop_last()) == o); }
pub open spec fn held(o: Doc) -> bool { text_at(o) || (o.mode is Value && !o.ent) }
pub proof fn doc_in_ref(o: Doc, s: Seq<char>)
    requires held(Doc { ent: false, ..o }), o.ent, forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) || s[i] == '#',
    ensures doc_run(o, s) == o,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies alnum(#[trigger] t[i]) || t[i] == '#' by { assert(t[i] == s[i]); }
        doc_in_ref(o, t);
        assert(alnum(s[s.len() - 1]) || s[s.len() - 1] == '#');
        assert(s.last() == s[s.len() - 1]);
    }
}
// A character reference.
pub proof fn doc_ref(o: Doc, s: Seq<char>)
    requires held(o), forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) || s[i] == '#',
    ensures doc_run(o, seq!['&'] + s + seq![';']) == o,
{
    doc_one(o, '&');
    let r = Doc { ent: true, ..o };
    assert(doc_run(o, seq!['&']) == r);
    doc_in_ref(r, s);
    doc_one(r, ';');
    doc_add(o, seq!['&'], s);
    doc_add(o, seq!['&'] + s, seq![';']);
}
// Escaped text leaves a reader where it was, in text and in quoted values.
pub proof fn doc_esc(o: Doc, s: Seq<char>)
    requires held(o),
    ensures doc_run(o, esc(s)) == o,
    decreases s.len(),
{
    if s.len() > 0 {
        let c = s.last();
        doc_esc(o, s.drop_last());
        doc_add(o, esc(s.drop_last()), esc_char(c));
        let e = esc_char(c);
        if c == '<' { doc_ref(o, seq!['l', 't']); assert(e =~= seq!['&'] + seq!['l', 't'] + seq![';']); }
        else if c == '>' { doc_ref(o, seq!['g', 't']); assert(e =~= seq!['&'] + seq!['g', 't'] + seq![';']); }
        else if c == '&' { doc_ref(o, seq!['a', 'm', 'p']); assert(e =~= seq!['&'] + seq!['a', 'm', 'p'] + seq![';']); }
        else if c == '"' { doc_ref(o, seq!['q', 'u', 'o', 't']); assert(e =~= seq!['&'] + seq!['q', 'u', 'o', 't'] + seq![';']); }
        else if c == '\'' { doc_ref(o, seq!['#', '3', '9']); assert(e =~= seq!['&'] + seq!['#', '3', '9'] + seq![';']); }
        else if c == '\0' { doc_one(o, ' '); }
        else { doc_one(o, c); }
    } else { assert(esc(s) =~= seq![]); }
}
pub proof fn esc_key(s: Seq<char>)
    requires key_ok(s),
    ensures esc(s) == s,
    decreases s.len(),
{
    if s.len() > 0 { esc_key(s.drop_last()); assert(alnum(s.last())); assert(esc(s) =~= s); } else { assert(esc(s) =~= s); }
}
// Digits are text.
pub proof fn doc_text(o: Doc, s: Seq<char>)
    requires text_at(o), key_ok(s),
    ensures doc_run(o, s) == o,
    decreases s.len(),
{ if s.len() > 0 { doc_text(o, s.drop_last()); assert(alnum(s.last())); } }
// Without "</", nothing ends an element with raw contents.
pub open spec fn no_end(s: Seq<char>) -> bool { forall|i: int| 0 <= i && i + 1 < s.len() ==> !(#[trigger] s[i] == '<' && s[i + 1] == '/') }
pub proof fn doc_raw(o: Doc, s: Seq<char>)
    requires o.mode is Text, !o.ent, inside_raw(o), no_end(s),
    ensures doc_run(o, s).stack == o.stack, !doc_run(o, s).ent, doc_run(o, s).mode == (if s.len() > 0 && s.last() == '<' { Mode::Lt } else { Mode::Text }),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i && i + 1 < t.len() implies !(#[trigger] t[i] == '<' && t[i + 1] == '/') by { assert(t[i] == s[i] && t[i + 1] == s[i + 1]); }
        doc_raw(o, t);
        if t.len() > 0 { assert(t.last() == s[s.len() - 2]); assert(!(s[s.len() - 2] == '<' && s[s.len() - 1] == '/')); }
    }
}
pub proof fn replaced_no_end(s: Seq<char>)
    ensures no_end(replace_all(s, seq!['<', '/'], seq!['<', '\\', '/'])),
    decreases s.len(),
{
    let p = seq!['<', '/'];
    let r = seq!['<', '\\', '/'];
    let k = find(s, p);
    find_facts(s, p, 0);
    let x = replace_all(s, p, r);
    if k < 0 {
        assert forall|i: int| 0 <= i && i + 1 < x.len() implies !(#[trigger] x[i] == '<' && x[i + 1] == '/') by {
            if x[i] == '<' && x[i + 1] == '/' { assert(s.subrange(i, i + 2) =~= p); }
        }
    } else {
        let rest = replace_all(s.skip(k + 2), p, r);
        replaced_no_end(s.skip(k + 2));
        assert(x =~= s.take(k) + r + rest);
        assert forall|i: int| 0 <= i && i + 1 < x.len() implies !(#[trigger] x[i] == '<' && x[i + 1] == '/') by {
            if i + 1 < k { if x[i] == '<' && x[i + 1] == '/' { assert(s.subrange(i, i + 2) =~= p); } }
            else if i >= k + 3 { assert(x[i] == rest[i - k - 3] && x[i + 1] == rest[i + 1 - k - 3]); }
        }
    }
}
pub mod ends {
use vstd::prelude::*;
pub broadcast proof fn push_drop(s: Seq<Seq<char>>, a: Seq<char>)
    ensures #[trigger] s.push(a).drop_last() == s,
{ assert(s.push(a).drop_last() =~= s); }
}

