//@use headlevel
//@use strx
pub open spec fn number(l: HeadingLevel) -> int { match l { HeadingLevel::One => 1, HeadingLevel::Two => 2, HeadingLevel::Three => 3, HeadingLevel::Four => 4, HeadingLevel::Five => 5, HeadingLevel::Six => 6 } }
pub open spec fn level(n: int) -> HeadingLevel { if n == 1 { HeadingLevel::One } else if n == 2 { HeadingLevel::Two } else if n == 3 { HeadingLevel::Three } else if n == 4 { HeadingLevel::Four } else if n == 5 { HeadingLevel::Five } else { HeadingLevel::Six } }
impl HeadingLevel {
//@fn src/tree/heading.rs @ `impl TryFrom<usize> for HeadingLevel` try_from r
//@sub `Result<Self, Self::Error>` => `Result<HeadingLevel, ()>`
//@rename from_usize
//@spec
    ensures r == if 1 <= value <= 6 { Ok::<HeadingLevel, ()>(level(value as int)) } else { Err::<HeadingLevel, ()>(()) },
//@end
}
pub proof fn levels() ensures forall|l: HeadingLevel| #[trigger] level(number(l)) == l { }
#[verifier::external_body]
pub fn vf_last(s: &str) -> (r: Option<char>) ensures r == if s@.len() == 0 { None } else { Some(s@.last()) } { unimplemented!() }
// The mark of a heading: as many pluses as its level, and a star if it is not to be listed.
pub open spec fn pluses(n: nat) -> Seq<char> { Seq::new(n, |i: int| '+') }
pub open spec fn heading_mark(n: nat, listed: bool) -> Seq<char> { if listed { pluses(n) } else { pluses(n).push('*') } }
pub proof fn mark_len(n: nat, listed: bool) ensures len8(heading_mark(n, listed)) == if listed { n } else { n + 1 }, decreases n, if listed { 0int } else { 1int } {
    if n > 0 { mark_len((n - 1) as nat, true); assert(pluses(n).drop_last() =~= pluses((n - 1) as nat)); }
    if !listed { mark_len(n, true); assert(pluses(n).push('*').drop_last() =~= pluses(n)); }
}
impl Heading {
//@fn src/tree/heading.rs @ `impl TryFrom<&'_ str> for Heading` try_from r
//@sub `Result<Self, Self::Error>` => `Result<Heading, ()>`
//@sub `value.chars().next_back().ok_or(())?` => `match vf_last(value) { Some(vf_c) => vf_c, None => return Err(()) }`
//@sub `value.len()` => `value.x_len()`
//@sub `HeadingLevel::try_from(len)?` => `match HeadingLevel::from_usize(len) { Ok(vf_l) => vf_l, Err(vf_e) => return Err(vf_e) }`
//@spec
    ensures forall|n: nat, listed: bool| 0 < n && value@ == #[trigger] heading_mark(n, listed) ==> r == if n <= 6 { Ok::<Heading, ()>(Heading { level: level(n as int), has_toc: listed }) } else { Err::<Heading, ()>(()) },
//@pre
    proof {
        assert forall|n: nat, listed: bool| 0 < n && value@ == #[trigger] heading_mark(n, listed) implies len8(value@) == (if listed { n } else { n + 1 }) && value@.len() > 0 && value@.last() == (if listed { '+' } else { '*' }) by { mark_len(n, listed); }
        if value@.len() > 0 { assert(w8(value@.last()) >= 1); }
    }
//@end
}
