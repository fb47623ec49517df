// Macros ok!(element, errors), ok!(elements, errors) and so on, and From for tuples.
//@pin src/parsing/macros.rs `($item:expr, $errors:expr $(,)?) => {{ use crate::parsing::ParseSuccess; use crate::tree::Elements; let item: Elements = $item.into(); let paragraph_safe = item.paragraph_safe(); Ok(ParseSuccess::new(item, $errors, paragraph_safe)) }};`
//@pin src/parsing/macros.rs `($paragraph_safe:expr; $item:expr, $errors:expr $(,)?) => {{ use crate::parsing::ParseSuccess; Ok(ParseSuccess::new($item.into(), $errors, $paragraph_safe)) }};`
impl<T> ParseSuccess<'_, '_, T> {
//@fn src/parsing/result.rs @ `impl<T> ParseSuccess<'_, '_, T>` new r
//@spec
    ensures r.item == item, r.errors == errors, r.paragraph_safe == paragraph_safe,
//@end
//@fn src/parsing/result.rs @ `impl<T> ParseSuccess<'_, '_, T>` chain r
//@sub `*all_paragraph_safe &= paragraph_safe;` => `*all_paragraph_safe = *all_paragraph_safe && paragraph_safe;`
//@spec
    ensures r == self.item, final(all_errors)@ == old(all_errors)@ + self.errors@, *final(all_paragraph_safe) == (*old(all_paragraph_safe) && self.paragraph_safe),
//@end
}
//@fn src/parsing/result.rs @ `impl<'r, 't, T> From<ParseSuccess<'r, 't, T>> for ParseSuccessTuple<T>` from r
//@rename vf_into
//@sig
pub fn vf_into<'r, 't, T>(success: ParseSuccess<'r, 't, T>) -> (r: (T, Vec<ParseError>, bool))
//@spec
    ensures r.0 == success.item, r.1 == success.errors, r.2 == success.paragraph_safe,
//@end
pub fn vf_ok<'r, 't>(element: Element<'t>, errors: Vec<ParseError>) -> (r: ParseResult<'r, 't, Elements<'t>>)
    requires !partial(element),
    ensures r.is_ok(), r->Ok_0.item@ == seq![element], r->Ok_0.errors == errors, r->Ok_0.paragraph_safe == inline(element),
{
    let item = Elements::from_element(element);
    proof { assert(item@[0] == element); }
    let paragraph_safe = item.paragraph_safe();
    Ok(ParseSuccess::new(item, errors, paragraph_safe))
}
#[verifier::external_body]
pub fn vf_rule_fallback() -> (r: Rule) { unimplemented!() }
