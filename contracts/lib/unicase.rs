//@use strx
//@assume unicase: UniCase::ascii() compares and hashes without regard to ASCII letter case
pub struct UniCase<S> { pub s: S }
impl<'a> UniCase<&'a str> {
    pub open spec fn view(&self) -> Seq<char> { self.s@ }
    pub fn ascii(s: &'a str) -> (r: UniCase<&'a str>) ensures r.s == s { UniCase { s } }
    pub fn into_inner(&self) -> (r: &'a str) ensures r == self.s { self.s }
    pub fn to_str(&self) -> (r: &'a str) ensures r == self.s { self.s }
}
