// C02: metadata is written as a tag whose name and value are escaped.
//@use utf strx fmt
//@import escape
//@type src/render/html/meta.rs HtmlMetaType
//@attr #[derive(Clone, Copy)]
//@end
//@type src/render/html/meta.rs HtmlMeta
//@end
pub open spec fn kind(t: HtmlMetaType) -> Seq<char> { match t { HtmlMetaType::Name => "name"@, HtmlMetaType::HttpEquiv => "http-equiv"@, HtmlMetaType::Property => "property"@ } }
impl HtmlMetaType {
//@fn src/render/html/meta.rs @ `impl HtmlMetaType` tag_name r
//@sub `use self::HtmlMetaType::*;` => ``
//@sub `Name =>` => `HtmlMetaType::Name =>`
//@sub `HttpEquiv =>` => `HtmlMetaType::HttpEquiv =>`
//@sub `Property =>` => `HtmlMetaType::Property =>`
//@spec
    ensures r@ == kind(self),
//@end
}
impl HtmlMeta {
//@fn src/render/html/meta.rs @ `impl HtmlMeta` render
//@fmt
//@sub `html::escape` => `escape`
//@spec
    ensures final(buffer)@ == old(buffer)@ + "<meta "@ + kind(self.tag_type) + "=\""@ + esc(self.name@) + "\" content=\""@ + esc(self.value@) + "\" />"@,
//@end
}
