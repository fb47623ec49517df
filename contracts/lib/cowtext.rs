use std::borrow::Cow;
#[verifier::external_body]
pub fn vf_text<'a, 'b>(s: &'b Cow<'a, str>) -> (r: &'b str) ensures r@ == s@ { unimplemented!() }
