// C01, C09, C11, C18, C20, C25: modules.
//@import blocks3
//@use strx unicase fmt
//@type src/parsing/rule/impls/block/blocks/module/output.rs ModuleParseOutput
//@end
impl<'t> Conv<ModuleParseOutput<'t>> for Module<'t> {
    open spec fn conv(self, r: ModuleParseOutput<'t>) -> bool { r == ModuleParseOutput::Module(self) }
//@fn src/parsing/rule/impls/block/blocks/module/output.rs @ `impl<'t> From<Module<'t>> for ModuleParseOutput<'t>` from r
//@rename vf_to
//@sub `ModuleParseOutput::Module(module)` => `ModuleParseOutput::Module(self)`
//@sig
    fn vf_to(self) -> (r: ModuleParseOutput<'t>)
//@spec
//@end
}
impl<'t> Conv<ModuleParseOutput<'t>> for Element<'t> {
    open spec fn conv(self, r: ModuleParseOutput<'t>) -> bool { r == ModuleParseOutput::Element(self) }
//@fn src/parsing/rule/impls/block/blocks/module/output.rs @ `impl<'t> From<Element<'t>> for ModuleParseOutput<'t>` from r
//@rename vf_to
//@sub `ModuleParseOutput::Element(element)` => `ModuleParseOutput::Element(self)`
//@sig
    fn vf_to(self) -> (r: ModuleParseOutput<'t>)
//@spec
//@end
}
pub open spec fn put_out<'t>(x: ModuleParseOutput<'t>) -> Seq<Element<'t>> { match x { ModuleParseOutput::Module(m) => seq![Element::Module(m)], ModuleParseOutput::Element(e) => seq![e], ModuleParseOutput::None => Seq::empty() } }
impl<'t> Conv<Elements<'t>> for ModuleParseOutput<'t> {
    open spec fn conv(self, r: Elements<'t>) -> bool { r@ == put_out(self) }
//@fn src/parsing/rule/impls/block/blocks/module/output.rs @ `impl<'t> From<ModuleParseOutput<'t>> for Elements<'t>` from r
//@rename vf_to
//@sub `match output` => `match self`
//@sig
    fn vf_to(self) -> (r: Elements<'t>)
//@spec
//@end
}
pub open spec fn module_doc(f: MFun) -> Doc {
    match f {
        MFun::Backlinks => doc("module-backlinks", seq!["Backlinks"], false, false, false, Run::Module(MFun::Backlinks)),
        MFun::Categories => doc("module-categories", seq!["Categories"], false, false, false, Run::Module(MFun::Categories)),
        MFun::Css => doc("module-css", seq!["CSS"], false, false, false, Run::Module(MFun::Css)),
        MFun::Join => doc("module-join", seq!["Join"], false, false, false, Run::Module(MFun::Join)),
        MFun::PageTree => doc("module-page-tree", seq!["PageTree"], false, false, false, Run::Module(MFun::PageTree)),
        MFun::Rate => doc("module-rate", seq!["Rate"], false, false, false, Run::Module(MFun::Rate)),
    }
}
// That the documented module which runs this is the one above.
pub proof fn module_found(i: int)
    requires 0 <= i < documented_modules().len(),
    ensures documented_modules()[i].run is Module, documented_modules()[i] == module_doc(documented_modules()[i].run->Module_0),
{ let d = documented_modules(); assert(d.len() == 6); if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else { assert(i == 5); } }
//@fn src/parsing/rule/impls/block/blocks/module/modules/mod.rs @ `mod prelude` assert_module_name
//@sub `assert_generic_name(module_rule.accepts_names,` => `assert_generic_name(&module_rule.accepts_names,`
//@spec
    requires answers(module_rule@, actual_name@),
//@end
pub open spec fn flag<'t>(m: Map<Seq<char>, Cow<'t, str>>, key: Seq<char>, b: bool) -> bool { match arg(m, key) { Some(s) => boolean(s) == Some(b), None => !b } }
pub uninterp spec fn depth_number(s: Seq<char>) -> Option<int>;
#[verifier::external_body]
pub fn vf_depth(s: &Cow<str>) -> (r: Result<NonZeroU32, ()>) ensures match r { Ok(n) => depth_number(s@) == Some(n@ as int), Err(_) => depth_number(s@).is_none() } { unimplemented!() }
pub open spec fn deep<'t>(m: Map<Seq<char>, Cow<'t, str>>, depth: Option<NonZeroU32>) -> bool { match arg(m, "depth"@) { Some(s) => depth.is_some() && depth_number(s) == Some(depth->Some_0@ as int), None => depth.is_none() } }
impl<'t> Arguments<'t> {
//@fn src/parsing/rule/impls/block/arguments.rs @ `impl<'t> Arguments<'t>` get_value r
//@sub `make_err!(parser)` => `parser.make_err(ParseErrorKind::BlockMalformedArguments)`
//@sub `argument.parse()` => `vf_depth(&argument)`
//@sig
pub fn get_value(&mut self, parser: &Parser<'_, 't>, key: &'t str) -> (r: Result<Option<NonZeroU32>, ParseError>)
//@spec
    ensures final(self).inner@ == old(self).inner@.remove(lower(key@)), match r {
        Ok(Some(n)) => old(self).inner@.contains_key(lower(key@)) && depth_number(old(self).inner@[lower(key@)]@) == Some(n@ as int),
        Ok(None) => !old(self).inner@.contains_key(lower(key@)),
        Err(_) => old(self).inner@.contains_key(lower(key@)) && depth_number(old(self).inner@[lower(key@)]@).is_none(),
    },
//@end
}
// What each module is made of the arguments that are given.
pub open spec fn module_says<'t>(f: MFun, m: Map<Seq<char>, Cow<'t, str>>, isolate: bool, e: Element<'t>) -> bool {
    match f {
        MFun::Backlinks => match e { Element::Module(Module::Backlinks { page }) => texted(page) == arg(m, "page"@), _ => false },
        MFun::Categories => match e { Element::Module(Module::Categories { include_hidden }) => flag(m, "includeHidden"@, include_hidden), _ => false },
        MFun::Css => e is Style,
        MFun::Join => match e { Element::Module(Module::Join { button_text, attributes }) => texted(button_text) == arg(m, "button"@) && attributes@ == attributes_of(m.remove(lower("button"@)), isolate), _ => false },
        MFun::PageTree => match e { Element::Module(Module::PageTree { root, show_root, depth }) => texted(root) == arg(m, "root"@) && flag(m, "showRoot"@, show_root) && deep(m, depth), _ => false },
        MFun::Rate => e == Element::Module(Module::Rate),
    }
}
pub open spec fn put<'r, 't>(f: MFun, m: Map<Seq<char>, Cow<'t, str>>, isolate: bool, r: ParseResult<'r, 't, ModuleParseOutput<'t>>) -> bool {
    r.is_ok() ==> !r->Ok_0.paragraph_safe && put_out(r->Ok_0.item).len() == 1 && module_says(f, m, isolate, put_out(r->Ok_0.item)[0])
}
pub open spec fn styled<'r, 't>(o: &Parser<'r, 't>, e: Element<'t>) -> bool { bodied(o, the(BFun::Module), |s: Seq<char>| match e { Element::Style(x) => x@ == s, _ => false }) }

//@fn src/parsing/rule/impls/block/blocks/module/modules/backlinks.rs parse_fn r
//@rename module_backlinks
//@sub `&MODULE_BACKLINKS` => `&MODULE_BACKLINKS()`
//@macros
//@sig
fn module_backlinks<'r: 't, 't>(_parser: &mut Parser<'r, 't>, name: &'t str, vf_arguments: Arguments<'t>) -> (r: ParseResult<'r, 't, ModuleParseOutput<'t>>)
//@spec
    requires old(_parser).ready(), answers(module_doc(MFun::Backlinks), name@),
    ensures final(_parser).ran(old(_parser)), put(MFun::Backlinks, vf_arguments.inner@, old(_parser).settings.isolate_user_ids, r), 
//@pre
    broadcast use running, reading;
    let ghost p0 = *_parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    let mut arguments = vf_arguments;
//@end
//@fn src/parsing/rule/impls/block/blocks/module/modules/categories.rs parse_fn r
//@rename module_categories
//@sub `&MODULE_CATEGORIES` => `&MODULE_CATEGORIES()`
//@sub `arguments.get_bool(parser, $K)?.unwrap_or(false)` => `(match arguments.get_bool(parser, $K)? { Some(vf_b) => vf_b, None => false })`
//@macros
//@sig
fn module_categories<'r: 't, 't>(parser: &mut Parser<'r, 't>, name: &'t str, vf_arguments: Arguments<'t>) -> (r: ParseResult<'r, 't, ModuleParseOutput<'t>>)
//@spec
    requires old(parser).ready(), answers(module_doc(MFun::Categories), name@),
    ensures final(parser).ran(old(parser)), put(MFun::Categories, vf_arguments.inner@, old(parser).settings.isolate_user_ids, r), 
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    let mut arguments = vf_arguments;
//@end
//@fn src/parsing/rule/impls/block/blocks/module/modules/css.rs parse_fn r
//@rename module_css
//@sub `&MODULE_CSS` => `&MODULE_CSS()`
//@sub `&BLOCK_MODULE` => `&BLOCK_MODULE()`
//@macros
//@sig
fn module_css<'r: 't, 't>(parser: &mut Parser<'r, 't>, name: &'t str, _arguments: Arguments<'t>) -> (r: ParseResult<'r, 't, ModuleParseOutput<'t>>)
//@spec
    requires old(parser).ready(), answers(module_doc(MFun::Css), name@),
    ensures final(parser).ran(old(parser)), put(MFun::Css, _arguments.inner@, old(parser).settings.isolate_user_ids, r), r.is_ok() ==> styled(old(parser), put_out(r->Ok_0.item)[0]),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    
//@past 0 `get_body_text(&BLOCK_MODULE())?;`
    proof { assert(body_after(&p0, &p0, the(BFun::Module), css@, &*parser)); assert(body(&p0, the(BFun::Module), css@)); }
//@end
//@fn src/parsing/rule/impls/block/blocks/module/modules/join.rs parse_fn r
//@rename module_join
//@sub `&MODULE_JOIN` => `&MODULE_JOIN()`
//@macros
//@sig
fn module_join<'r: 't, 't>(parser: &mut Parser<'r, 't>, name: &'t str, vf_arguments: Arguments<'t>) -> (r: ParseResult<'r, 't, ModuleParseOutput<'t>>)
//@spec
    requires old(parser).ready(), answers(module_doc(MFun::Join), name@),
    ensures final(parser).ran(old(parser)), put(MFun::Join, vf_arguments.inner@, old(parser).settings.isolate_user_ids, r), 
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    let mut arguments = vf_arguments;
//@end
//@fn src/parsing/rule/impls/block/blocks/module/modules/page_tree.rs parse_fn r
//@rename module_page_tree
//@sub `&MODULE_PAGE_TREE` => `&MODULE_PAGE_TREE()`
//@sub `arguments.get_bool(parser, $K)?.unwrap_or(false)` => `(match arguments.get_bool(parser, $K)? { Some(vf_b) => vf_b, None => false })`
//@macros
//@sig
fn module_page_tree<'r: 't, 't>(parser: &mut Parser<'r, 't>, name: &'t str, vf_arguments: Arguments<'t>) -> (r: ParseResult<'r, 't, ModuleParseOutput<'t>>)
//@spec
    requires old(parser).ready(), answers(module_doc(MFun::PageTree), name@),
    ensures final(parser).ran(old(parser)), put(MFun::PageTree, vf_arguments.inner@, old(parser).settings.isolate_user_ids, r), 
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    let mut arguments = vf_arguments;
    proof { keys_apart(); }
//@end
//@fn src/parsing/rule/impls/block/blocks/module/modules/rate.rs parse_fn r
//@rename module_rate
//@sub `&MODULE_RATE` => `&MODULE_RATE()`
//@macros
//@sig
fn module_rate<'r: 't, 't>(_parser: &mut Parser<'r, 't>, name: &'t str, _arguments: Arguments<'t>) -> (r: ParseResult<'r, 't, ModuleParseOutput<'t>>)
//@spec
    requires old(_parser).ready(), answers(module_doc(MFun::Rate), name@),
    ensures final(_parser).ran(old(_parser)), put(MFun::Rate, _arguments.inner@, old(_parser).settings.isolate_user_ids, r), 
//@pre
    broadcast use running, reading;
    let ghost p0 = *_parser;
    proof { ran_refl(&p0); from_refl(&p0); }
    
//@end
pub proof fn keys_apart()
    ensures lower("root"@) != lower("depth"@), lower("root"@) != lower("showRoot"@), lower("depth"@) != lower("showRoot"@),
{
    reveal_strlit("root"); reveal_strlit("depth"); reveal_strlit("showRoot");
    assert(lower("root"@).len() == 4); assert(lower("depth"@).len() == 5); assert(lower("showRoot"@).len() == 8);
}
// The function of a module, by its number.
pub fn vf_module_fn<'r: 't, 't>(module_rule: &ModuleRule, parser: &mut Parser<'r, 't>, name: &'t str, arguments: Arguments<'t>) -> (r: ParseResult<'r, 't, ModuleParseOutput<'t>>)
    requires old(parser).ready(), answers(module_rule@, name@), module_rule@ == module_doc(module_rule.parse_fn),
    ensures final(parser).ran(old(parser)), put(module_rule.parse_fn, arguments.inner@, old(parser).settings.isolate_user_ids, r), module_rule.parse_fn is Css && r.is_ok() ==> styled(old(parser), put_out(r->Ok_0.item)[0]),
{
    match module_rule.parse_fn {
        MFun::Backlinks => module_backlinks(parser, name, arguments),
        MFun::Categories => module_categories(parser, name, arguments),
        MFun::Css => module_css(parser, name, arguments),
        MFun::Join => module_join(parser, name, arguments),
        MFun::PageTree => module_page_tree(parser, name, arguments),
        MFun::Rate => module_rate(parser, name, arguments),
    }
}
// The module that is named, made of the arguments that follow.
pub open spec fn names_module(n: Seq<char>, i: int, j: int, f: MFun) -> bool { known(documented_modules(), i, j, n) && documented_modules()[i] == module_doc(f) }
pub open spec fn module_named<'t>(n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>, isolate: bool, e: Element<'t>) -> bool { exists|i: int, j: int, f: MFun| #[trigger] names_module(n, i, j, f) && module_says(f, m, isolate, e) }
// The style sheet is the body, read where the head of the module ended.
pub open spec fn set_aside<'r, 't>(o: &Parser<'r, 't>, h: &Parser<'r, 't>, p: &Parser<'r, 't>) -> bool { h.read(o) && p.aside(h) }
pub open spec fn style_after<'r, 't>(o: &Parser<'r, 't>, h: &Parser<'r, 't>, p: &Parser<'r, 't>, e: Element<'t>) -> bool { set_aside(o, h, p) && styled(p, e) }
pub open spec fn styled_in<'r, 't>(o: &Parser<'r, 't>, e: Element<'t>) -> bool { exists|h: Parser<'r, 't>, p: Parser<'r, 't>| #[trigger] style_after(o, &h, &p, e) }
pub proof fn answered(i: int, j: int, name: Seq<char>)
    requires known(documented_modules(), i, j, name),
    ensures answers(documented_modules()[i], name), names_module(name, i, j, documented_modules()[i].run->Module_0),
{ module_found(i); assert(eq_nocase(documented_modules()[i].names[j]@, name)); }
//@fn src/parsing/rule/impls/block/blocks/module/rule.rs parse_fn r
//@rename block_module
//@sub `&BLOCK_MODULE` => `&BLOCK_MODULE()`
//@sub `(module_rule.parse_fn)(parser, subname, arguments)?.into()` => `vf_into(vf_module_fn(module_rule, parser, subname, arguments)?)`
//@sub `let (subname, arguments) = parser.get_head_name_map($A)?;` => `let vf_h = parser.get_head_name_map($A)?; let (subname, arguments) = vf_h;`
//@macros
//@spec
    requires old(parser).called(the(BFun::Module), name@, flag_star, flag_score),
    ensures final(parser).ruled(old(parser), r), single(r), r.is_ok() ==> old(parser).settings.enable_page_syntax && in_head && name_heads(old(parser), |n: Seq<char>, m: Map<Seq<char>, Cow<'t, str>>| module_named(n, m, old(parser).settings.isolate_user_ids, r->Ok_0.item@[0])), r.is_ok() && r->Ok_0.item@[0] is Style ==> styled_in(old(parser), r->Ok_0.item@[0]),
//@pre
    broadcast use running, reading;
    let ghost p0 = *parser;
    proof { ran_refl(&p0); from_refl(&p0); }
//@at 0 `let (subname`
    let ghost m0 = vf_h.1.inner@;
    let ghost n0 = vf_h.0@;
    let ghost p1 = *parser;
    proof { assert(name_head(&p0, n0, m0)); }
//@at 0 `parser.set_module`
    let ghost (i, j) = choose|i: int, j: int| #[trigger] known(documented_modules(), i, j, n0) && module_rule@ == documented_modules()[i];
    proof { answered(i, j, n0); module_found(i); }
//@past 0 `parser.set_module(module_rule);`
    let ghost p3 = *parser;
    proof { ran_refl(&p3); from_refl(&p1); assert(p1.read(&p0)); assert(p3.aside(&p1)); assert(p3.ran(&p0)); assert(p3.ready()); assert(module_rule@.run == Run::Module(module_rule.parse_fn)); }
//@at 0 `Ok(ParseSuccess::new(vf_to(elements)`
    proof { if elements is Element { let e = elements->Element_0; if e is Style { if module_rule.parse_fn is Css { assert(style_after(&p0, &p1, &p3, e)); } } } }
//@end
