// C19: making a document independent of its source text changes nothing in it.
//@use tree
//@use strmap
//@assume strings, vectors and attribute maps are compared by what they contain (as PartialEq does), not by where it lies
mod ext { use super::*;
pub broadcast axiom fn cow_ext(a: Cow<str>, b: Cow<str>) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub broadcast axiom fn vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
}
broadcast use {ext::cow_ext, ext::vec_ext};
#[verifier::external_body]
pub struct VariableMap<'t> { x: std::marker::PhantomData<&'t str> }
impl<'t> VariableMap<'t> { pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl<'t> AttributeMap<'t> {
    // proved in unit attributes
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: AttributeMap<'static>) ensures r == *self { unimplemented!() }
}
// proved in unit variables
#[verifier::external_body]
pub fn string_map_to_owned(map: &VariableMap<'_>) -> (r: VariableMap<'static>) ensures r == *map { unimplemented!() }
// Cow::Owned(value.to_string()), Cow::Owned(value.as_ref().to_owned())
#[verifier::external_body]
pub fn vf_copied(s: &Cow<str>) -> (r: Cow<'static, str>) ensures r@ == s@ { unimplemented!() }
//@fn src/tree/clone.rs string_to_owned r
//@sub `Cow::Owned(str!(string))` => `vf_copied(string)`
//@sig
fn string_to_owned(string: &Cow<'_, str>) -> (r: Cow<'static, str>)
//@spec
    ensures r == *string,
//@end
//@fn src/tree/clone.rs option_string_to_owned r
//@sub `option_string.ref_map(|s| string_to_owned(s))` => `match option_string { Some(s) => Some(string_to_owned(s)), None => None }`
//@spec
    ensures r == *option_string,
//@end
//@type src/data/page_ref.rs PageRef
//@end
//@type src/tree/link.rs LinkLocation
//@end
//@type src/tree/link.rs LinkLabel
//@end
//@type src/tree/module.rs Module
//@end
//@type src/tree/image.rs ImageSource
//@end
//@type src/tree/embed.rs Embed
//@end
//@type src/tree/code.rs CodeBlock
//@end
//@type src/tree/bibliography.rs Bibliography
//@end
//@type src/tree/bibliography.rs BibliographyList
//@end
//@type src/tree/mod.rs SyntaxTree
//@end
impl<'t> PageRef<'t> {
//@fn src/data/page_ref.rs @ `impl<'t> PageRef<'t>` to_owned r
//@sub `macro_rules! owned { $BODY }` => ``
//@sub `self.site.ref_map(|value| owned!(value))` => `match &self.site { Some(value) => Some(vf_copied(value)), None => None }`
//@sub `owned!(self.page)` => `vf_copied(&self.page)`
//@spec
    ensures r == *self,
//@end
}
impl<'t> LinkLocation<'t> {
//@fn src/tree/link.rs @ `impl<'a> LinkLocation<'a>` to_owned r
//@spec
    ensures r == *self,
//@end
}
impl<'t> LinkLabel<'t> {
//@fn src/tree/link.rs @ `impl LinkLabel<'_>` to_owned r
//@spec
    ensures r == *self,
//@end
}
impl<'t> Module<'t> {
//@fn src/tree/module.rs @ `impl Module<'_>` to_owned r
//@spec
    ensures r == *self,
//@end
}
impl<'t> ImageSource<'t> {
//@fn src/tree/image.rs @ `impl<'t> ImageSource<'t>` to_owned r
//@spec
    ensures r == *self,
//@end
}
impl<'t> Embed<'t> {
//@fn src/tree/embed.rs @ `impl Embed<'_>` to_owned r
//@spec
    ensures r == *self,
//@end
}
impl<'t> CodeBlock<'t> {
//@fn src/tree/code.rs @ `impl CodeBlock<'_>` to_owned r
//@spec
    ensures r == *self,
//@end
}
//@fn src/tree/clone.rs elements_to_owned r
//@sub `elements.iter().map(|element| element.to_owned()).collect()` => `let mut vf_r = Vec::new(); for vf_x in elements.iter() { vf_r.push(vf_x.to_owned()); } vf_r`
//@spec
    ensures r@ == elements@,
    decreases elements@,
//@loop 0 it
    invariant vf_r@ =~= elements@.take(it.index()), it.seq().len() == elements@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i],
//@in 0
    proof { assert(*vf_x == elements@[it.index() as int]);  }
//@after 0
    proof { assert(elements@.take(elements@.len() as int) =~= elements@); }
//@end
//@fn src/tree/clone.rs list_items_to_owned r
//@sub `list_items.iter().map(|list_item| list_item.to_owned()).collect()` => `let mut vf_r = Vec::new(); for vf_x in list_items.iter() { vf_r.push(vf_x.to_owned()); } vf_r`
//@spec
    ensures r@ == list_items@,
    decreases list_items@,
//@loop 0 it
    invariant vf_r@ =~= list_items@.take(it.index()), it.seq().len() == list_items@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == list_items@[i],
//@in 0
    proof { assert(*vf_x == list_items@[it.index() as int]);  }
//@after 0
    proof { assert(list_items@.take(list_items@.len() as int) =~= list_items@); }
//@end
//@fn src/tree/clone.rs elements_lists_to_owned r
//@sub `element_lists.iter().map(|elements| elements_to_owned(elements.as_slice())).collect()` => `let mut vf_r = Vec::new(); for vf_x in element_lists.iter() { vf_r.push(elements_to_owned(vf_x.as_slice())); } vf_r`
//@spec
    ensures r@ == element_lists@,
//@loop 0 it
    invariant vf_r@ =~= element_lists@.take(it.index()), it.seq().len() == element_lists@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == element_lists@[i],
//@in 0
    proof { assert(*vf_x == element_lists@[it.index() as int]);  }
//@after 0
    proof { assert(element_lists@.take(element_lists@.len() as int) =~= element_lists@); }
//@end
impl<'t> Container<'t> {
//@fn src/tree/container.rs @ `impl<'t> Container<'t>` to_owned r
//@spec
    ensures r == *self,
    decreases self,
//@end
}
impl<'t> Table<'t> {
//@fn src/tree/table.rs @ `impl Table<'_>` to_owned r
//@sub `self.rows.iter().map(|$V| $V.to_owned()).collect()` => `{ let mut vf_r = Vec::new(); for vf_x in self.rows.iter() { vf_r.push(vf_x.to_owned()); } vf_r }`
//@spec
    ensures r == *self,
    decreases self,
//@loop 0 it
    invariant vf_r@ =~= self.rows@.take(it.index()), it.seq().len() == self.rows@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.rows@[i],
//@in 0
    proof { assert(*vf_x == self.rows@[it.index() as int]);  }
//@after 0
    proof { assert(self.rows@.take(self.rows@.len() as int) =~= self.rows@); }
//@end
}
impl<'t> TableRow<'t> {
//@fn src/tree/table.rs @ `impl TableRow<'_>` to_owned r
//@sub `self.cells.iter().map(|$V| $V.to_owned()).collect()` => `{ let mut vf_r = Vec::new(); for vf_x in self.cells.iter() { vf_r.push(vf_x.to_owned()); } vf_r }`
//@spec
    ensures r == *self,
    decreases self,
//@loop 0 it
    invariant vf_r@ =~= self.cells@.take(it.index()), it.seq().len() == self.cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.cells@[i],
//@in 0
    proof { assert(*vf_x == self.cells@[it.index() as int]);  }
//@after 0
    proof { assert(self.cells@.take(self.cells@.len() as int) =~= self.cells@); }
//@end
}
impl<'t> TableCell<'t> {
//@fn src/tree/table.rs @ `impl TableCell<'_>` to_owned r
//@spec
    ensures r == *self,
    decreases self,
//@end
}
impl<'t> ListItem<'t> {
//@fn src/tree/list.rs @ `impl ListItem<'_>` to_owned r
//@spec
    ensures r == *self,
    decreases self,
//@end
}
impl<'t> DefinitionListItem<'t> {
//@fn src/tree/definition_list.rs @ `impl DefinitionListItem<'_>` to_owned r
//@spec
    ensures r == *self,
    decreases self,
//@end
}
impl<'t> Tab<'t> {
//@fn src/tree/tab.rs @ `impl Tab<'_>` to_owned r
//@spec
    ensures r == *self,
    decreases self,
//@end
}
impl<'t> RubyText<'t> {
//@fn src/tree/ruby.rs @ `impl RubyText<'_>` to_owned r
//@spec
    ensures r == *self,
    decreases self,
//@end
}
impl<'t> PartialElement<'t> {
//@fn src/tree/partial.rs @ `impl PartialElement<'_>` to_owned r
//@spec
    ensures r == *self,
    decreases self,
//@end
}
impl<'t> Element<'t> {
//@fn src/tree/element/object.rs @ `impl Element<'_>` to_owned r
//@sub `tabs.iter().map(|$V| $V.to_owned()).collect()` => `{ let mut vf_r = Vec::new(); for vf_x in tabs.iter() { vf_r.push(vf_x.to_owned()); } vf_r }`
//@sub `items.iter().map(|$V| $V.to_owned()).collect()` => `{ let mut vf_r = Vec::new(); for vf_x in items.iter() { vf_r.push(vf_x.to_owned()); } vf_r }`
//@sub `link.ref_map(|link| link.to_owned())` => `(match link { Some(link) => Some(link.to_owned()), None => None })`
//@spec
    ensures r == *self,
    decreases self,
//@loop 0 it
    invariant vf_r@ =~= tabs@.take(it.index()), it.seq().len() == tabs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == tabs@[i], self is TabView && self->TabView_0 == *tabs,
//@in 0
    proof { assert(*vf_x == tabs@[it.index() as int]);  }
//@after 0
    proof { assert(tabs@.take(tabs@.len() as int) =~= tabs@); }
//@loop 1 it
    invariant vf_r@ =~= items@.take(it.index()), it.seq().len() == items@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == items@[i], self is DefinitionList && self->DefinitionList_0 == *items,
//@in 1
    proof { assert(*vf_x == items@[it.index() as int]);  }
//@after 1
    proof { assert(items@.take(items@.len() as int) =~= items@); }
//@end
}
impl<'t> Bibliography<'t> {
//@fn src/tree/bibliography.rs @ `impl<'t> Bibliography<'t>` to_owned r
//@sub `self.0.iter().map(|(label, elements)| { $E }).collect()` => `{ let mut vf_r = Vec::new(); for vf_x in self.0.iter() { let (label, elements) = vf_x; vf_r.push({ $E }); } vf_r }`
//@spec
    ensures r == *self,
//@loop 0 it
    invariant vf_r@ =~= self.0@.take(it.index()), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.0@[i],
//@in 0
    proof { assert(*vf_x == self.0@[it.index() as int]);  }
//@after 0
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@end
}
impl<'t> BibliographyList<'t> {
//@fn src/tree/bibliography.rs @ `impl<'t> BibliographyList<'t>` to_owned r
//@sub `self.0.iter().map(|b| b.to_owned()).collect()` => `{ let mut vf_r = Vec::new(); for vf_x in self.0.iter() { vf_r.push(vf_x.to_owned()); } vf_r }`
//@spec
    ensures r == *self,
//@loop 0 it
    invariant vf_r@ =~= self.0@.take(it.index()), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.0@[i],
//@in 0
    proof { assert(*vf_x == self.0@[it.index() as int]);  }
//@after 0
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@end
}
impl<'t> SyntaxTree<'t> {
//@fn src/tree/mod.rs @ `impl<'t> SyntaxTree<'t>` to_owned r
//@sub `self.html_blocks.iter().map(|html| string_to_owned(html)).collect()` => `{ let mut vf_r = Vec::new(); for vf_x in self.html_blocks.iter() { vf_r.push(string_to_owned(vf_x)); } vf_r }`
//@sub `self.code_blocks.iter().map(|$V| $V.to_owned()).collect()` => `{ let mut vf_r = Vec::new(); for vf_x in self.code_blocks.iter() { vf_r.push(vf_x.to_owned()); } vf_r }`
//@spec
    ensures r == *self,
//@loop 0 it
    invariant vf_r@ =~= self.html_blocks@.take(it.index()), it.seq().len() == self.html_blocks@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.html_blocks@[i],
//@in 0
    proof { assert(*vf_x == self.html_blocks@[it.index() as int]);  }
//@after 0
    proof { assert(self.html_blocks@.take(self.html_blocks@.len() as int) =~= self.html_blocks@); }
//@loop 1 it
    invariant vf_r@ =~= self.code_blocks@.take(it.index()), it.seq().len() == self.code_blocks@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.code_blocks@[i],
//@in 1
    proof { assert(*vf_x == self.code_blocks@[it.index() as int]);  }
//@after 1
    proof { assert(self.code_blocks@.take(self.code_blocks@.len() as int) =~= self.code_blocks@); }
//@end
}
