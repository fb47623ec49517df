//@import biblio elements
//@use payloads
//@use tree
use std::ops::Range;
use std::marker::PhantomData;
//@type src/parsing/token/mod.rs Token
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/parsing/token/mod.rs ExtractedToken
//@end
//@type src/parsing/error.rs ParseErrorKind
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/parsing/error.rs ParseError
//@end
//@type src/parsing/result.rs ParseSuccess
//@end
//@type src/parsing/result.rs ParseResult
//@end
//@type src/parsing/rule/mod.rs LineRequirement
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@use funs
//@type src/parsing/rule/mod.rs Rule
//@sub `try_consume_fn: TryConsumeFn` => `try_consume_fn: Fun`
//@attr #[derive(Copy, Clone)]
//@end
//@type src/parsing/condition.rs ParseCondition
//@attr #[derive(Copy, Clone)]
//@end
//@type src/tree/partial.rs AcceptsPartial
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/tree/code.rs CodeBlock
//@end
//@type src/text.rs FullText
//@attr #[derive(Copy, Clone)]
//@end
//@use settings
//@use pageinfo
// The lists a parser shares with the parsers cloned from it are shown as owned by it;
// vf_shared() below is where their being shared matters.
//@assume the lists behind Rc<RefCell<..>> in Parser are those of every clone, and are never borrowed twice at the same time
//@type src/parsing/parser.rs Parser
//@sub `Rc<RefCell<Vec<(usize, String)> > >` => `Vec<(usize, String)>`
//@sub `Rc<RefCell<Vec<Cow<'t, str> > > >` => `Vec<Cow<'t, str>>`
//@sub `Rc<RefCell<Vec<CodeBlock<'t> > > >` => `Vec<CodeBlock<'t>>`
//@sub `Rc<RefCell<Vec<Vec<Element<'t> > > > >` => `Vec<Vec<Element<'t>>>`
//@sub `Rc<RefCell<BibliographyList<'t> > >` => `BibliographyList<'t>`
//@end
//@type src/parsing/parser.rs SharedItemsMark
//@attr #[derive(Copy, Clone)]
//@end
//@type src/parsing/parser.rs NonUniqueNameError
//@end
#[verifier::external_body]
pub fn vf_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
