//@assume NonZeroUsize is a number other than zero
#[verifier::external_body]
pub struct NonZeroUsize { x: std::num::NonZeroUsize }
impl Copy for NonZeroUsize {}
impl Clone for NonZeroUsize { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl NonZeroUsize {
    pub uninterp spec fn view(&self) -> nat;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Option<NonZeroUsize>) ensures match r { Some(x) => x@ == n && n > 0, None => n == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: usize) ensures r == self@, r > 0 { unimplemented!() }
}
