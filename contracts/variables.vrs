// C22: variables are looked up from the innermost scope outwards.
//@use strmap
//@fn src/tree/clone.rs string_map_to_owned r
//@sub `map.iter().map(|(key, value)| { let key = string_to_owned(key); let value = string_to_owned(value); (key, value) }).collect()` => `vf_copy(map)`
//@sig
fn string_map_to_owned(map: &StrMap) -> (r: StrMap)
//@spec
    ensures r@ == map@,
//@end
// Each key and value copied.
#[verifier::external_body]
pub fn vf_copy(m: &StrMap) -> (r: StrMap) ensures r@ == m@ { unimplemented!() }
//@type src/tree/variables.rs VariableScopes
//@sub `VariableMap<'static>` => `StrMap`
//@end
pub open spec fn maps(v: Seq<StrMap>) -> Seq<Map<Seq<char>, Seq<char>>> { v.map_values(|m: StrMap| m@) }
// The value given by the innermost scope that has the name.
pub open spec fn lookup(v: Seq<Map<Seq<char>, Seq<char>>>, name: Seq<char>) -> Option<Seq<char>>
    decreases v.len(),
{
    if v.len() == 0 { None } else if v.last().contains_key(name) { Some(v.last()[name]) } else { lookup(v.drop_last(), name) }
}
#[verifier::external_body]
pub fn vf_rev<'a, T>(v: &'a Vec<T>) -> (r: Vec<&'a T>)
    ensures r.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] r[i]) == v[v.len() - 1 - i],
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_expect<T>(o: Option<T>) -> (r: T)
    requires o.is_some(),
    ensures Some(r) == o,
{ unimplemented!() }
impl VariableScopes {
    pub open spec fn view(&self) -> Seq<Map<Seq<char>, Seq<char>>> { maps(self.scopes@) }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.scopes@.len() == 0 { unimplemented!() }
//@fn src/tree/variables.rs @ `impl VariableScopes` new r
//@spec
    ensures r.scopes@.len() == 0, r@ =~= Seq::<Map<Seq<char>, Seq<char>>>::empty(),
//@end
//@fn src/tree/variables.rs @ `impl VariableScopes` get r
//@sub `self.scopes.iter().rev()` => `vf_rev(&self.scopes)`
//@spec
    ensures match r { Some(v) => lookup(self@, name@) == Some(v@), None => lookup(self@, name@).is_none() },
//@pre
    proof { assert(self@.take(self@.len() as int) =~= self@); }
//@loop 0 it
    invariant
        it.seq().len() == self.scopes.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.scopes[it.seq().len() - 1 - i],
        lookup(self@, name@) == lookup(self@.take(self.scopes.len() - it.index()), name@),
//@in 0
    proof {
        let v = self@.take(self.scopes.len() - it.index());
        assert(v.last() == scope@);
        assert(v.drop_last() =~= self@.take(self.scopes.len() - it.index() - 1));
    }
//@end
//@fn src/tree/variables.rs @ `impl VariableScopes` push_scope
//@sub `&VariableMap` => `&StrMap`
//@spec
    ensures final(self)@ == old(self)@.push(scope@),
//@post
    proof { assert(self@ =~= old(self)@.push(scope@)); }
//@end
//@fn src/tree/variables.rs @ `impl VariableScopes` pop_scope
//@sub `self.scopes.pop().expect($m)` => `vf_expect(self.scopes.pop())`
//@spec
    requires old(self)@.len() > 0,
    ensures final(self)@ == old(self)@.drop_last(),
//@post
    proof { assert(self@ =~= old(self)@.drop_last()); }
//@end
}
