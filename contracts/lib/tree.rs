use std::borrow::Cow;
// The element types, as declared in /repo/src/tree; the payloads below are left opaque.
#[verifier::external_body]
pub struct DateItem { x: u8 }
impl Copy for DateItem {}
impl Clone for DateItem { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct NonZeroU32 { x: u32 }
impl Copy for NonZeroU32 {}
impl Clone for NonZeroU32 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl NonZeroU32 {
    pub uninterp spec fn view(&self) -> nat;
    #[verifier::external_body]
    pub fn new(n: u32) -> (r: Option<NonZeroU32>) ensures match r { Some(x) => x@ == n && n > 0, None => n == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: u32) ensures r == self@, r > 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct AttributeMap<'t> { x: std::marker::PhantomData<&'t str> }
impl<'t> AttributeMap<'t> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
}
//@use headlevel
//@type src/tree/align.rs Alignment
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/tree/align.rs FloatAlignment
//@attr #[derive(Copy, Clone)]
//@end
//@type src/tree/anchor.rs AnchorTarget
//@attr #[derive(Copy, Clone)]
//@end
//@type src/tree/clear_float.rs ClearFloat
//@attr #[derive(Copy, Clone)]
//@end
//@use linktype
//@type src/tree/list.rs ListType
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/tree/list.rs ListItem
//@end
//@type src/tree/definition_list.rs DefinitionListItem
//@end
//@type src/tree/tab.rs Tab
//@end
//@type src/tree/table.rs TableCell
//@end
//@type src/tree/table.rs TableRow
//@end
//@type src/tree/table.rs Table
//@end
//@type src/tree/ruby.rs RubyText
//@end
//@type src/tree/partial.rs PartialElement
//@end
//@type src/tree/container.rs ContainerType
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/tree/container.rs Container
//@end
//@type src/tree/element/object.rs Element
//@end
//@type src/tree/element/collection.rs Elements
//@end
