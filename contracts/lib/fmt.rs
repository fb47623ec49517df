//@use strx
//@assume Display of strings, characters and unsigned integers shows the text, the character, the decimal digits
// Formatted output, piece by piece.
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{ if n < 10 { seq![((48 + n) as u8) as char] } else { dec(n / 10).push(((48 + n % 10) as u8) as char) } }
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'c> Shown for std::borrow::Cow<'c, str> { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl Shown for u8 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[derive(Debug)]
pub struct FmtError;
pub trait Sink {
    spec fn out(&self) -> Seq<char>;
    fn x_lit(&mut self, s: &str) ensures final(self).out() == old(self).out() + s@;
    fn x_show<T: Shown + ?Sized>(&mut self, t: &T) ensures final(self).out() == old(self).out() + t.shown();
    fn x_ok(&self) -> (r: Result<(), FmtError>) ensures r.is_ok();
}
impl Sink for String {
    open spec fn out(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_lit(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body] fn x_show<T: Shown + ?Sized>(&mut self, t: &T) { unimplemented!() }
    #[verifier::external_body] fn x_ok(&self) -> (r: Result<(), FmtError>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
