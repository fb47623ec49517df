//@use strx
// A hash map from strings to strings, seen as a mathematical map of their texts.
#[verifier::external_body]
pub struct StrMap { m: std::collections::HashMap<String, String> }
impl StrMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a String>)
        ensures match r { Some(v) => self@.contains_key(k@) && v@ == self@[k@], None => !self@.contains_key(k@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<'a, 'b>(&mut self, k: std::borrow::Cow<'a, str>, v: std::borrow::Cow<'b, str>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, 'b>(&'a mut self, k: &str) -> (r: Option<&'a mut std::borrow::Cow<'b, str>>)
        ensures match r {
            Some(v) => old(self)@.contains_key(k@) && v@ == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, (*final(v))@),
            None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@,
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: StrMap) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: StrMap) ensures r@ == self@ { unimplemented!() }
}
