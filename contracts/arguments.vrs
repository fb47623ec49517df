// C18, C25: the arguments of a block.
//@import args collect
//@pin src/parsing/rule/impls/block/arguments.rs `macro_rules! make_err { ($parser:expr) => { $parser.make_err(ParseErrorKind::BlockMalformedArguments) }; }`
//@type src/parsing/rule/impls/block/arguments.rs Arguments
//@sub `HashMap<UniCase<&'t str>, Cow<'t, str>>` => `CaseMap<Cow<'t, str>>`
//@end
impl<'t> Arguments<'t> {
//@fn src/parsing/rule/impls/block/arguments.rs @ `impl<'t> Arguments<'t>` insert
//@spec
    // the last of several values wins, whatever the letter case of the name
    ensures final(self).inner@ == old(self).inner@.insert(lower(key@), value),
//@end
//@fn src/parsing/rule/impls/block/arguments.rs @ `impl<'t> Arguments<'t>` get r
//@spec
    ensures
        match r { Some(v) => old(self).inner@.contains_key(lower(key@)) && v == old(self).inner@[lower(key@)], None => !old(self).inner@.contains_key(lower(key@)) },
        final(self).inner@ == old(self).inner@.remove(lower(key@)),
//@end
//@fn src/parsing/rule/impls/block/arguments.rs @ `impl<'t> Arguments<'t>` get_bool r
//@sub `make_err!(parser)` => `parser.make_err(ParseErrorKind::BlockMalformedArguments)`
//@sub `parse_boolean(argument)` => `parse_boolean(vf_text(&argument))`
//@spec
    ensures ({
        let m = old(self).inner@;
        match r {
            Ok(Some(b)) => m.contains_key(lower(key@)) && boolean(m[lower(key@)]@) == Some(b),
            Ok(None) => !m.contains_key(lower(key@)),
            Err(_) => m.contains_key(lower(key@)) && boolean(m[lower(key@)]@).is_none(),
        }
    }), final(self).inner@ == old(self).inner@.remove(lower(key@)),
//@end
}
