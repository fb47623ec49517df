// C16: every character boundary, and only those, is mapped to the number of
// UTF-16 units in front of it.
use std::collections::HashMap;
use std::marker::PhantomData;
//@use utf
broadcast use vstd::std_specs::hash::group_hash_axioms;

//@type src/utf16.rs Utf16IndexMap
//@end

pub open spec fn boundary(s: Seq<char>, k: usize, i: int) -> bool { 0 <= i <= s.len() && k == len8(s.take(i)) }
pub open spec fn mapped(m: Map<usize, usize>, s: Seq<char>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] m.contains_key(len8(s.take(i)) as usize)
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && k == len8(s.take(i)) && m[k] == len16(s.take(i))
}
#[verifier::external_body]
pub fn vf_index(m: &HashMap<usize, usize>, k: &usize) -> (r: usize)
    requires m@.contains_key(*k),
    ensures r == m@[*k],
{ m[k] }

impl<'t> Utf16IndexMap<'t> {
//@fn src/utf16.rs @ `impl<'t> Utf16IndexMap<'t>` new r
//@methods char_indices len len_utf16
//@spec
    ensures
        // every character boundary of the text is present ...
        forall|i: int| 0 <= i <= text@.len() ==> #[trigger] r.map@.contains_key(len8(text@.take(i)) as usize),
        // ... nothing else is, and its value counts the UTF-16 units before it
        forall|k: usize| #[trigger] r.map@.contains_key(k) ==> exists|i: int| 0 <= i <= text@.len() && k == len8(text@.take(i)) && r.map@[k] == len16(text@.take(i)),
//@pre
    proof { assert(text@.take(0) =~= Seq::<char>::empty()); assert(text@.take(text@.len() as int) =~= text@); }
//@loop 0 it
    invariant
        it.seq().len() == text@.len(),
        forall|i: int| 0 <= i < text@.len() ==> (#[trigger] it.seq()[i]).1 == text@[i] && it.seq()[i].0 == len8(text@.take(i)),
        utf16_index == len16(text@.take(it.index())),
        mapped(map@, text@, it.index() as int),
        len8(text@) <= usize::MAX,
        text@.take(text@.len() as int) == text@,
//@in 0
    proof {
        let n = it.index();
        len_step(text@, n);
        len8_mono(text@, n + 1, text@.len() as int);
        len16_le_len8(text@.take(n + 1));
        assert(utf8_index == len8(text@.take(n)));
        assert forall|i: int| 0 <= i < n implies len8(text@.take(i)) < utf8_index by { len8_mono(text@, i, n); }
    }
    let ghost m0 = map@;
//@tail 0
    proof {
        let n = it.index();
        assert(map@ =~= m0.insert(len8(text@.take(n)) as usize, len16(text@.take(n)) as usize));
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] map@.contains_key(len8(text@.take(i)) as usize) by { if i < n { assert(m0.contains_key(len8(text@.take(i)) as usize)); } }
        assert forall|k: usize| #[trigger] map@.contains_key(k) implies exists|i: int| 0 <= i < n + 1 && k == len8(text@.take(i)) && map@[k] == len16(text@.take(i)) by {
            if m0.contains_key(k) && k != len8(text@.take(n)) {
                let i = choose|i: int| 0 <= i < n && k == len8(text@.take(i)) && m0[k] == len16(text@.take(i));
                assert(0 <= i < n + 1 && k == len8(text@.take(i)) && map@[k] == len16(text@.take(i)));
            } else { assert(0 <= n < n + 1 && k == len8(text@.take(n)) && map@[k] == len16(text@.take(n))); }
        }
    }
//@after 0
    let ghost m0 = map@;
    let ghost n = text@.len() as int;
    proof { assert forall|i: int| 0 <= i < n implies len8(text@.take(i)) < len8(text@) && len8(text@.take(i)) <= usize::MAX by { len8_mono(text@, i, n); } }
//@at 0 `Utf16IndexMap {`
    proof {
        assert forall|i: int| 0 <= i <= n implies #[trigger] map@.contains_key(len8(text@.take(i)) as usize) by { if i < n { assert(m0.contains_key(len8(text@.take(i)) as usize)); } }
        assert forall|k: usize| #[trigger] map@.contains_key(k) implies exists|i: int| 0 <= i <= n && k == len8(text@.take(i)) && map@[k] == len16(text@.take(i)) by {
            if m0.contains_key(k) && k != len8(text@) {
                let i = choose|i: int| 0 <= i < n && k == len8(text@.take(i)) && m0[k] == len16(text@.take(i));
                assert(0 <= i <= n && k == len8(text@.take(i)) && map@[k] == len16(text@.take(i)));
            } else { assert(0 <= n <= n && k == len8(text@.take(n)) && map@[k] == len16(text@.take(n))); }
        }
    }
//@end
//@fn src/utf16.rs @ `impl<'t> Utf16IndexMap<'t>` get_index r
//@sub `self.map[&$x]` => `vf_index(&self.map, &$x)`
//@spec
    requires self.map@.contains_key(utf8_index),
    ensures r == self.map@[utf8_index],
//@end
}
