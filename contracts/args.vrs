// C18: values of block arguments.
use std::borrow::Cow;
//@use strx unicase
//@fn src/parsing/string.rs escape_char r
//@spec
    ensures r == unescaped(ch),
//@end
pub open spec fn unescaped(c: char) -> Option<char> {
    if c == '\\' { Some('\\') } else if c == '"' { Some('"') } else if c == '\'' { Some('\'') }
    else if c == 'r' { Some('\r') } else if c == 'n' { Some('\n') } else if c == 't' { Some('\t') } else { None }
}
pub open spec fn quoted(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '"' && s.last() == '"' }
//@fn src/parsing/string.rs slice_middle r
//@methods len starts_with ends_with
//@slices input
//@spec
    ensures match r { Some(m) => quoted(input@) && m@ == input@.subrange(1, input@.len() - 1), None => !quoted(input@) },
//@pre
    proof {
        let s = input@;
        bi_ends(s); len16_le_len8(s);
        if s.len() >= 1 {
            let n = s.len() as int;
            bi_step(s, 0); ci_bi(s, 1);
            bi_step(s, n - 1); ci_bi(s, n - 1);
            bi_mono(s, 0, n - 1);
            if n >= 2 { bi_mono(s, 1, n - 1); bi_mono(s, 1, n); bi_step(s, 1); bi_mono(s, 2, n); }
            assert(s.take(1) =~= seq![s[0]]);
            assert(s.skip(n - 1) =~= seq![s.last()]);
            if starts(s, seq!['"']) { assert(s.take(1)[0] == '"'); }
            if ends(s, seq!['"']) { assert(s.skip(n - 1)[0] == '"'); }
        }
    }
//@end
// The text between the quotes with its escapes resolved; a backslash in front of
// anything else stays. (esc: a backslash came just before.)
pub open spec fn resolve(s: Seq<char>, esc: bool) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if esc {
        match unescaped(s[0]) { Some(c) => seq![c] + resolve(s.skip(1), false), None => seq!['\\', s[0]] + resolve(s.skip(1), false) }
    } else if s[0] == '\\' { resolve(s.skip(1), true) }
    else { seq![s[0]] + resolve(s.skip(1), false) }
}
pub proof fn resolve_plain(s: Seq<char>)
    requires !s.contains('\\'),
    ensures resolve(s, false) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s.contains(s[0]));
        assert(!s.skip(1).contains('\\')) by { if s.skip(1).contains('\\') { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == '\\'; assert(s[i + 1] == '\\'); } }
        resolve_plain(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
//@fn src/parsing/string.rs parse_string r
//@sub `fn parse_string(input: &str) -> Cow<str>` => `fn parse_string<'a>(input: &'a str) -> Cow<'a, str>`
//@methods contains chars
//@spec
    ensures r@ == if quoted(input@) { resolve(input@.subrange(1, input@.len() - 1), false) } else { input@ },
//@at 0 `if !input`
    proof { find_char(input@, '\\'); if find(input@, seq!['\\']) < 0 { resolve_plain(input@); } }
//@loop 0 it
    invariant
        it.seq() == input@,
        resolve(input@, false) == output@ + resolve(input@.skip(it.index()), wants_escape),
//@outside 0
    proof { assert(input@.skip(0) =~= input@); assert(output@ + resolve(input@, false) =~= resolve(input@, false)); }
//@in 0
    let ghost rest = input@.skip(it.index());
    let ghost out0 = output@;
    let ghost esc = wants_escape;
    proof { assert(rest[0] == ch); assert(rest.skip(1) =~= input@.skip(it.index() + 1)); }
//@tail 0
    proof { assert(out0 + resolve(rest, esc) =~= output@ + resolve(rest.skip(1), wants_escape)); }
//@after 0
    proof { assert(input@.skip(input@.len() as int) =~= Seq::<char>::empty()); assert(output@ + resolve(Seq::empty(), wants_escape) =~= output@); }
//@end

//@type src/parsing/boolean.rs NonBooleanValue
//@end
pub open spec fn boolean(s: Seq<char>) -> Option<bool> {
    let t = lower(trim(s));
    if t == "true"@ || t == "t"@ || t == "1"@ || t == "yes"@ { Some(true) }
    else if t == "false"@ || t == "f"@ || t == "0"@ || t == "no"@ { Some(false) }
    else { None }
}
pub open spec fn names() -> Seq<Seq<char>> { seq!["true"@, "false"@, "t"@, "f"@, "1"@, "0"@, "yes"@, "no"@] }
pub proof fn names_low()
    ensures lower("true"@) == "true"@, lower("false"@) == "false"@, lower("t"@) == "t"@, lower("f"@) == "f"@, lower("1"@) == "1"@, lower("0"@) == "0"@, lower("yes"@) == "yes"@, lower("no"@) == "no"@,
        "true"@.len() == 4, "false"@.len() == 5, "t"@ == seq!['t'], "f"@ == seq!['f'], "1"@ == seq!['1'], "0"@ == seq!['0'], "yes"@.len() == 3, "no"@.len() == 2,
{
    reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("t"); reveal_strlit("f"); reveal_strlit("1"); reveal_strlit("0"); reveal_strlit("yes"); reveal_strlit("no");
    assert(lower("true"@) =~= "true"@); assert(lower("false"@) =~= "false"@); assert(lower("t"@) =~= "t"@); assert(lower("f"@) =~= "f"@);
    assert(lower("1"@) =~= "1"@); assert(lower("0"@) =~= "0"@); assert(lower("yes"@) =~= "yes"@); assert(lower("no"@) =~= "no"@);
    assert("t"@ =~= seq!['t']); assert("f"@ =~= seq!['f']); assert("1"@ =~= seq!['1']); assert("0"@ =~= seq!['0']);
}
//@fn src/parsing/boolean.rs parse_boolean r
//@sub `fn parse_boolean<S: AsRef<str>>(s: S)` => `fn parse_boolean(vf_a: &str)`
//@sub `const NAMES: [(&str, bool); 8]` => `let NAMES: [(&'static str, bool); 8]`
//@sub `s.as_ref().trim()` => `vf_a.x_trim()`
//@methods eq_ignore_ascii_case
//@spec
    ensures match r { Ok(b) => boolean(vf_a@) == Some(b), Err(_) => boolean(vf_a@).is_none() },
//@pre
    proof { names_low(); }
//@loop 0 it
    invariant
        s@ == trim(vf_a@),
        it.seq().len() == 8,
        forall|i: int| 0 <= i < 8 ==> *(#[trigger] it.seq()[i]) == NAMES[i],
        NAMES[0] == ("true", true), NAMES[1] == ("false", false), NAMES[2] == ("t", true), NAMES[3] == ("f", false), NAMES[4] == ("1", true), NAMES[5] == ("0", false), NAMES[6] == ("yes", true), NAMES[7] == ("no", false),
        forall|i: int| 0 <= i < it.index() ==> lower(#[trigger] names()[i]) != lower(s@),
//@in 0
    proof { names_low(); assert(names()[it.index()] == (*vf_e).0@); assert(seq!['t'][0] == 't' && seq!['f'][0] == 'f' && seq!['0'][0] == '0' && seq!['1'][0] == '1'); }
//@at 0 `return Ok`
    proof {
        let i = it.index();
        assert(lower(names()[i]) == lower(s@));
        assert(value == NAMES[i].1);
    }
//@after 0
    proof { names_low(); assert(lower(names()[0]) != lower(s@) && lower(names()[1]) != lower(s@) && lower(names()[2]) != lower(s@) && lower(names()[3]) != lower(s@) && lower(names()[4]) != lower(s@) && lower(names()[5]) != lower(s@) && lower(names()[6]) != lower(s@) && lower(names()[7]) != lower(s@)); }
//@end

// HashMap<UniCase<&str>, Cow<str>>: keyed by the lower-cased name.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct CaseMap<V> { m: std::collections::HashMap<String, V> }
impl<V> CaseMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: UniCase<&str>, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(lower(k@), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &UniCase<&str>) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(lower(k@)), match r { Some(v) => old(self)@.contains_key(lower(k@)) && v == old(self)@[lower(k@)], None => !old(self)@.contains_key(lower(k@)) },
    { unimplemented!() }
}
//@use cowtext
