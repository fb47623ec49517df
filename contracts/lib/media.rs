// Modules, pictures and embedded media.
//@type src/tree/module.rs Module
//@end
impl<'t> Module<'t> {
    #[verifier::external_body]
    pub fn name(&self) -> &'static str { unimplemented!() }
}
//@type src/tree/image.rs ImageSource
//@end
//@type src/tree/embed.rs Embed
//@end
