// What a page is processed with.
//@use strmap
//@type src/settings/mod.rs WikitextMode
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/layout.rs Layout
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/settings/interwiki.rs InterwikiSettings
//@sub `HashMap<Cow<'static, str>, Cow<'static, str>>` => `StrMap`
//@end
//@type src/settings/mod.rs WikitextSettings
//@end
