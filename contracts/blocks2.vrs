// C01, C09, C11, C25: blocks which make one element of their heads.
//@import blocks floats url ids
//@use strx unicase fmt
#[verifier::external_body]
fn vf_style<'t>(a: &mut AttributeMap<'t>, value: Cow<'t, str>) ensures final(a)@ == old(a)@.insert("style"@, value@) { unimplemented!() }
// One element, and this is true of it.
pub open spec fn only<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>) -> Option<Element<'t>> { if r.is_ok() && r->Ok_0.item@.len() == 1 { Some(r->Ok_0.item@[0]) } else { None } }
pub open spec fn single<'r, 't>(r: ParseResult<'r, 't, Elements<'t>>) -> bool { r.is_ok() ==> r->Ok_0.item@.len() == 1 }
// The text in the head.
pub open spec fn argued<'r, 't>(o: &Parser<'r, 't>, more: bool, s: Seq<char>) -> bool { more && between(o, 0, Token::RightBlock, s) }

// There is a text in the head, and this is true of it.
pub open spec fn told<'r, 't>(o: &Parser<'r, 't>, more: bool, f: spec_fn(Seq<char>) -> bool) -> bool { exists|s: Seq<char>| #[trigger] argued(o, more, s) && f(s) }
pub struct SizeStyle;
impl<'r, 't> Converts<'r, 't, String> for SizeStyle {
    open spec fn gives(self, value: Option<Seq<char>>, r: String) -> bool { match value { Some(s) => r@ == "font-size: "@ + s + ";"@, None => false } }
//@fn src/parsing/rule/impls/block/blocks/size.rs parse_fn r
//@rename call
//@fmt
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |parser, value| match value { $CASES })?; $REST ok!(paragraph_safe; element, errors)` => `match value { $CASES }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<String, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/size.rs parse_fn r
//@rename block_size
//@sub `&BLOCK_SIZE` => `&BLOCK_SIZE()`
//@sub `|parser, value| match value { $CASES }` => `SizeStyle`
//@sub `parser.get_body_elements($A, $B)?.into()` => `vf_into(parser.get_body_elements($A, $B)?)`
//@sub `map.insert("style", Cow::Owned(size))` => `vf_style(&mut map, Cow::Owned(size))`
//@macros
//@spec
    requires old(parser).called(the(BFun::Size), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| sized(s, r->Ok_0.item@[0])),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, SizeStyle)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, SizeStyle, size, v);
    proof { assert(value_head(&p0, in_head, SizeStyle, size)); assert(converts(&p0, in_head, SizeStyle, size, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
pub open spec fn sized(s: Seq<char>, e: Element) -> bool {
    match e { Element::Container(c) => c.ctype == ContainerType::Size && no_partial(c.elements@) && c.attributes@ == Map::<Seq<char>, Seq<char>>::empty().insert("style"@, "font-size: "@ + s + ";"@), _ => false }
}
pub struct CiteLabel;
impl<'r, 't> Converts<'r, 't, &'t str> for CiteLabel {
    open spec fn gives(self, value: Option<Seq<char>>, r: &'t str) -> bool { match value { Some(s) => r@ == trim(s), None => false } }
//@fn src/parsing/rule/impls/block/blocks/bibcite.rs parse_fn r
//@rename call
//@methods trim
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |parser, value| match value { $CASES }$C)?; $REST ok!(Element::BibliographyCite { $E })` => `match value { $CASES }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<&'t str, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/bibcite.rs parse_fn r
//@rename block_bibcite
//@sub `&BLOCK_BIBCITE` => `&BLOCK_BIBCITE()`
//@sub `in_head, |parser, value| match value { $CASES }$C)?` => `in_head, CiteLabel)?`
//@macros
//@spec
    requires old(parser).called(the(BFun::Bibcite), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| match r->Ok_0.item@[0] { Element::BibliographyCite { label, brackets } => label@ == trim(s) && brackets == !flag_score, _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, CiteLabel)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, CiteLabel, label, v);
    proof { assert(value_head(&p0, in_head, CiteLabel, label)); assert(converts(&p0, in_head, CiteLabel, label, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
pub struct EquationName;
impl<'r, 't> Converts<'r, 't, &'t str> for EquationName {
    open spec fn gives(self, value: Option<Seq<char>>, r: &'t str) -> bool { match value { Some(s) => r@ == trim(s), None => false } }
//@fn src/parsing/rule/impls/block/blocks/equation_ref.rs parse_fn r
//@rename call
//@methods trim
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |parser, value| match value { $CASES }$C)?; $REST ok!(Element::EquationReference(cow!(name)))` => `match value { $CASES }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<&'t str, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/equation_ref.rs parse_fn r
//@rename block_equation_ref
//@sub `&BLOCK_EQUATION_REF` => `&BLOCK_EQUATION_REF()`
//@sub `in_head, |parser, value| match value { $CASES }$C)?` => `in_head, EquationName)?`
//@macros
//@spec
    requires old(parser).called(the(BFun::EquationRef), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| match r->Ok_0.item@[0] { Element::EquationReference(n) => n@ == trim(s), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, EquationName)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, EquationName, name, v);
    proof { assert(value_head(&p0, in_head, EquationName, name)); assert(converts(&p0, in_head, EquationName, name, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
pub struct UserName;
impl<'r, 't> Converts<'r, 't, &'t str> for UserName {
    open spec fn gives(self, value: Option<Seq<char>>, r: &'t str) -> bool { match value { Some(s) => r@ == trim(s), None => false } }
//@fn src/parsing/rule/impls/block/blocks/user.rs parse_fn r
//@rename call
//@methods trim
//@sub `vf_check(!flag_score); $PRE = parser.get_head_value($H, in_head, |parser, value| match value { $CASES }$C)?; $REST ok!(element)` => `match value { $CASES }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<&'t str, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/user.rs parse_fn r
//@rename block_user
//@sub `&BLOCK_USER` => `&BLOCK_USER()`
//@sub `in_head, |parser, value| match value { $CASES }$C)?` => `in_head, UserName)?`
//@macros
//@spec
    requires old(parser).called(the(BFun::User), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| match r->Ok_0.item@[0] { Element::User { name, show_avatar } => name@ == trim(s) && show_avatar == flag_star, _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, UserName)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, UserName, name, v);
    proof { assert(value_head(&p0, in_head, UserName, name)); assert(converts(&p0, in_head, UserName, name, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
pub struct TargetName;
impl<'r, 't> Converts<'r, 't, &'t str> for TargetName {
    open spec fn gives(self, value: Option<Seq<char>>, r: &'t str) -> bool { match value { Some(s) => r@ == trim(s), None => false } }
//@fn src/parsing/rule/impls/block/blocks/target.rs parse_fn r
//@rename call
//@methods trim is_empty contains
//@sub `vf_check(!flag_star); $PRE = parser.get_head_value($H, in_head, |parser, value| match value { $CASES }$C)?; $REST ok!(Element::AnchorName(name))` => `match value { $CASES }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, value: Option<&'t str>) -> (r: Result<&'t str, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/target.rs parse_fn r
//@rename block_target
//@sub `&BLOCK_TARGET` => `&BLOCK_TARGET()`
//@methods is_empty contains
//@sub `in_head, |parser, value| match value { $CASES }$C)?` => `in_head, TargetName)?`
//@macros
//@spec
    requires old(parser).called(the(BFun::Target), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| targeted(trim(s), old(parser).settings.isolate_user_ids, r->Ok_0.item@[0])),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, TargetName)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, TargetName, name, v);
    proof { assert(value_head(&p0, in_head, TargetName, name)); assert(converts(&p0, in_head, TargetName, name, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
// The name of a place: no spaces, not empty, and with the prefix where ids are kept apart.
pub open spec fn targeted(s: Seq<char>, isolate: bool, e: Element) -> bool {
    s.len() > 0 && find(s, seq![' ']) < 0 && match e { Element::AnchorName(n) => n@ == if isolate { isolated(s) } else { s }, _ => false }
}
//@assume str::parse::<NonZeroU32> reads decimal digits, with a plus sign before them or none, of a number from 1 to 2^32 - 1
pub open spec fn figure(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digits(s: Seq<char>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { digits(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn unsigned(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s } }
pub open spec fn number(s: Seq<char>) -> Option<int> {
    let t = unsigned(s);
    if t.len() > 0 && (forall|i: int| 0 <= i < t.len() ==> figure(#[trigger] t[i])) && 0 < digits(t) < 0x1_0000_0000 { Some(digits(t)) } else { None }
}
#[verifier::external_body]
pub fn vf_number(s: &str) -> (r: Result<NonZeroU32, ()>) ensures match r { Ok(n) => number(s@) == Some(n@ as int), Err(_) => number(s@).is_none() } { unimplemented!() }
pub struct LineCount;
impl<'r, 't> Converts<'r, 't, NonZeroU32> for LineCount {
    open spec fn gives(self, value: Option<Seq<char>>, r: NonZeroU32) -> bool { match value { Some(s) => number(trim(s)) == Some(r@ as int) && r@ <= 100, None => false } }
//@fn src/parsing/rule/impls/block/blocks/lines.rs parse_count r
//@rename call
//@methods trim
//@sub `argument.parse::<NonZeroU32>()` => `vf_number(argument)`
//@sub `match vf_number(argument) { Ok(value) if value.get() > 100 => { $A } $REST }` => `{ let vf_n = vf_number(argument); if vf_n.is_ok() && vf_n.unwrap().get() > 100 { $A } else { match vf_n { $REST } } }`
//@sig
    fn call(self, parser: &Parser<'r, 't>, argument: Option<&'t str>) -> (r: Result<NonZeroU32, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/lines.rs parse_fn r
//@rename block_lines
//@sub `&BLOCK_LINES` => `&BLOCK_LINES()`
//@sub `parse_count` => `LineCount`
//@macros
//@spec
    requires old(parser).called(the(BFun::Lines), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| match r->Ok_0.item@[0] { Element::LineBreaks(n) => number(trim(s)) == Some(n@ as int) && n@ <= 100, _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, LineCount)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, LineCount, count, v);
    proof { assert(value_head(&p0, in_head, LineCount, count)); assert(converts(&p0, in_head, LineCount, count, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/later.rs parse_fn r
//@rename block_later
//@sub `&BLOCK_LATER` => `&BLOCK_LATER()`
//@macros
//@spec
    requires old(parser).called(the(BFun::Later), name@, _flag_star, _flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> match r->Ok_0.item@[0] { Element::Text(x) => x@ == "later."@, _ => false },
        // nothing but the head is passed over
        r.is_ok() ==> head_done(old(parser), final(parser), true, in_head, if nth_is(old(parser), 0, Token::Whitespace) { 1 } else { 0 }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@end
//@pin src/parsing/rule/impls/block/blocks/char.rs `static ENTITY_MAPPING: Lazy<HashMap<&'static str, &'static str>> = Lazy::new(|| { let mut mapping = HashMap::new(); for entity in &ENTITIES { let key = strip_entity(entity.entity); let value = entity.characters; mapping.insert(key, value); } mapping });`
//@assume the table of named characters is the one of the entities crate, without the marks around the names
pub uninterp spec fn entity(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vf_entity(s: &str) -> (r: Option<&'static str>) ensures match r { Some(x) => entity(s@) == Some(x@), None => entity(s@).is_none() } { unimplemented!() }
//@assume u32::from_str_radix reads numbers below 2^32 and nothing else
pub uninterp spec fn radix(s: Seq<char>, n: u32) -> Option<u32>;
#[verifier::external_body]
pub fn vf_radix(s: &str, n: u32) -> (r: Result<u32, ()>) ensures match r { Ok(x) => radix(s@, n) == Some(x), Err(_) => radix(s@, n).is_none() } { unimplemented!() }
pub open spec fn is_char(n: u32) -> bool { n < 0xD800 || (0xE000 <= n && n <= 0x10FFFF) }
#[verifier::external_body]
pub fn vf_char(n: u32) -> (r: Option<char>) ensures match r { Some(c) => is_char(n) && c as u32 == n, None => !is_char(n) } { unimplemented!() }
#[verifier::external_body]
pub fn vf_char_string(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
// The character with this number.
pub open spec fn numbered(s: Seq<char>, n: u32) -> Option<Seq<char>> { match radix(s, n) { Some(k) => if is_char(k) { Some(seq![k as char]) } else { None }, None => None } }
pub open spec fn character(s: Seq<char>) -> Option<Seq<char>> {
    if entity(s).is_some() { entity(s) }
    else if starts(s, "#x"@) && numbered(s.skip(2), 16).is_some() { numbered(s.skip(2), 16) }
    else if starts(s, seq!['#']) { numbered(s.skip(1), 10) }
    else { None }
}
pub open spec fn bare_entity(s: Seq<char>) -> Seq<char> {
    let t = trim(s);
    let u = if starts(t, seq!['&']) { t.skip(1) } else { t };
    if ends(u, seq![';']) { u.take(u.len() - 1) } else { u }
}
//@fn src/parsing/rule/impls/block/blocks/char.rs strip_entity r
//@methods trim strip_prefix strip_suffix
//@sig
fn strip_entity<'a>(vf_s: &'a str) -> (r: &'a str)
//@spec
    ensures r@ == bare_entity(vf_s@),
//@pre
    let mut s: &'a str = vf_s;
//@end
//@fn src/parsing/rule/impls/block/blocks/char.rs get_char r
//@sub `u32::from_str_radix` => `vf_radix`
//@sub `char::from_u32` => `vf_char`
//@sub `ch.to_string()` => `vf_char_string(ch)`
//@sig
fn get_char<'a>(value: &'a str, vf_radix_of: u32) -> (r: Option<Cow<'a, str>>)
//@spec
    ensures match r { Some(c) => numbered(value@, vf_radix_of) == Some(c@), None => numbered(value@, vf_radix_of).is_none() },
//@pre
    let radix = vf_radix_of;
//@end
//@fn src/parsing/rule/impls/block/blocks/char.rs find_entity r
//@methods strip_prefix
//@sub `ENTITY_MAPPING.get` => `vf_entity`
//@macros
//@sig
fn find_entity<'a>(vf_entity_of: &'a str) -> (r: Option<Cow<'a, str>>)
//@spec
    ensures match r { Some(c) => character(vf_entity_of@) == Some(c@), None => character(vf_entity_of@).is_none() },
//@pre
    let entity = vf_entity_of;
    proof { reveal_strlit("#x"); if starts(vf_entity_of@, "#x"@) { assert(vf_entity_of@.take(2)[0] == '#'); assert(vf_entity_of@[0] == '#'); assert(vf_entity_of@.take(1) =~= seq!['#']); } }
//@end
pub struct EntityOf;
impl<'r, 't> Converts<'r, 't, Cow<'t, str>> for EntityOf {
    open spec fn gives(self, value: Option<Seq<char>>, r: Cow<'t, str>) -> bool { match value { Some(s) => character(bare_entity(s)) == Some(r@), None => false } }
//@fn src/parsing/rule/impls/block/blocks/char.rs parse_entity r
//@rename call
//@sig
    fn call(self, parser: &Parser<'r, 't>, argument: Option<&'t str>) -> (r: Result<Cow<'t, str>, ParseError>)
//@spec
//@end
}
//@fn src/parsing/rule/impls/block/blocks/char.rs parse_fn r
//@rename block_char
//@sub `&BLOCK_CHAR` => `&BLOCK_CHAR()`
//@sub `parse_entity` => `EntityOf`
//@macros
//@spec
    requires old(parser).called(the(BFun::Char), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> told(old(parser), in_head, |s: Seq<char>| match r->Ok_0.item@[0] { Element::Text(x) => character(bare_entity(s)) == Some(x@), _ => false }),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@past 0 `in_head, EntityOf)?;`
    let ghost v = choose|v: Option<Seq<char>>| #[trigger] converts(&p0, in_head, EntityOf, string, v);
    proof { assert(value_head(&p0, in_head, EntityOf, string)); assert(converts(&p0, in_head, EntityOf, string, v)); assert(argued(&p0, in_head, v->Some_0)); }
//@end
