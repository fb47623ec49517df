//@use media
// Payloads of elements which are left opaque in most units.
//@use linktypes
#[verifier::external_body]
pub struct VariableMap<'t> { x: std::marker::PhantomData<&'t str> }
