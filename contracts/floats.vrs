// C25: the marks of alignments.
use std::borrow::Cow;
//@use strx payloads tree
impl Alignment {
//@fn src/tree/align.rs @ `impl Alignment` name r
//@spec
    ensures r@ == match self { Alignment::Left => "left"@, Alignment::Right => "right"@, Alignment::Center => "center"@, Alignment::Justify => "justify"@ },
//@end
//@fn src/tree/align.rs @ `impl TryFrom<&'_ str> for Alignment` try_from r
//@sub `Result<Self, Self::Error>` => `Result<Alignment, ()>`
//@spec
    ensures
        value@ == "<"@ ==> r == Ok::<Alignment, ()>(Alignment::Left), value@ == ">"@ ==> r == Ok::<Alignment, ()>(Alignment::Right),
        value@ == "="@ ==> r == Ok::<Alignment, ()>(Alignment::Center), value@ == "=="@ ==> r == Ok::<Alignment, ()>(Alignment::Justify),
        r.is_ok() ==> value@ == "<"@ || value@ == ">"@ || value@ == "="@ || value@ == "=="@,
//@pre
    broadcast use str_ext;
    proof { reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("="); reveal_strlit("=="); assert("<"@[0] != ">"@[0]); assert("<"@[0] != "="@[0]); assert(">"@[0] != "="@[0]); }
//@end
}
pub open spec fn float_mark(s: Seq<char>) -> Option<(Alignment, bool)> {
    if s == "="@ { Some((Alignment::Center, false)) } else if s == "<"@ { Some((Alignment::Left, false)) } else if s == ">"@ { Some((Alignment::Right, false)) }
    else if s == "f<"@ || s == "F<"@ { Some((Alignment::Left, true)) } else if s == "f>"@ || s == "F>"@ { Some((Alignment::Right, true)) } else { None }
}
//@assume regular expression ^[fF]?([<=>]) finds a leading f or F, if there is one, and a mark after it
pub open spec fn lead(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() > 0 && (s[0] == '<' || s[0] == '=' || s[0] == '>') { Some(s.take(1)) }
    else if s.len() > 1 && (s[0] == 'f' || s[0] == 'F') && (s[1] == '<' || s[1] == '=' || s[1] == '>') { Some(s.take(2)) } else { None }
}
#[verifier::external_body]
pub fn vf_lead(s: &str) -> (r: Option<&str>) ensures match r { Some(t) => lead(s@) == Some(t@), None => lead(s@).is_none() } { unimplemented!() }
impl FloatAlignment {
//@fn src/tree/align.rs @ `impl TryFrom<&'_ str> for FloatAlignment` try_from r
//@sub `Result<Self, Self::Error>` => `Result<FloatAlignment, ()>`
//@spec
    ensures match r { Ok(f) => float_mark(value@) == Some((f.align, f.float)), Err(_) => float_mark(value@).is_none() },
//@pre
    broadcast use str_ext;
    proof {
        reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("="); reveal_strlit("f<"); reveal_strlit("f>"); reveal_strlit("F<"); reveal_strlit("F>");
        assert("<"@[0] == '<'); assert(">"@[0] == '>'); assert("="@[0] == '='); assert("f<"@[0] == 'f' && "f<"@[1] == '<'); assert("f>"@[0] == 'f' && "f>"@[1] == '>'); assert("F<"@[0] == 'F' && "F<"@[1] == '<'); assert("F>"@[0] == 'F' && "F>"@[1] == '>');
    }
//@end
//@fn src/tree/align.rs @ `impl FloatAlignment` parse r
//@sub `static IMAGE_ALIGNMENT_REGEX: Lazy<Regex> = Lazy::new(|| Regex::new(r"^[fF]?([<=>])").unwrap());` => ``
//@sub `IMAGE_ALIGNMENT_REGEX.find(name).and_then(|mtch| FloatAlignment::try_from(mtch.as_str()).ok())` => `match vf_lead(name) { Some(vf_m) => match FloatAlignment::try_from(vf_m) { Ok(vf_f) => Some(vf_f), Err(_) => None }, None => None }`
//@sub `use once_cell::sync::Lazy;` => ``
//@spec
    ensures match r { Some(f) => lead(name@).is_some() && float_mark(lead(name@)->Some_0) == Some((f.align, f.float)), None => lead(name@).is_none() || float_mark(lead(name@)->Some_0).is_none() },
//@end
}
