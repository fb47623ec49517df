// C26: expansion of interwiki targets.
//@use strmap
//@use settings
use std::borrow::Cow;
pub open spec fn expand(table: Map<Seq<char>, Seq<char>>, link: Seq<char>) -> Option<Seq<char>> {
    let k = find(link, seq![':']);
    if k <= 0 || k + 1 >= link.len() || !table.contains_key(link.take(k)) { None }
    else { Some(replace_all(replace_all(table[link.take(k)], "$$"@, link.skip(k + 1)), seq![' '], "%20"@)) }
}
// A part without the character in front of the rest stays as it is.
pub proof fn find_past(a: Seq<char>, b: Seq<char>, c: char)
    requires !a.contains(c),
    ensures find(b, seq![c]) >= 0 ==> find(a + b, seq![c]) == a.len() + find(b, seq![c]), find(b, seq![c]) < 0 ==> find(a + b, seq![c]) == -1,
{
    find_char(b, c); find_char(a + b, c);
    let k = find(a + b, seq![c]);
    let j = find(b, seq![c]);
    if k >= 0 && k < a.len() { assert(a[k] == c); }
    if k >= a.len() { assert((a + b)[k] == b[k - a.len()]); }
    if j >= 0 { assert((a + b)[a.len() + j] == b[j]); }
}
pub proof fn replace_past(a: Seq<char>, b: Seq<char>, c: char, r: Seq<char>)
    requires !a.contains(c),
    ensures replace_all(a + b, seq![c], r) == a + replace_all(b, seq![c], r),
{
    find_past(a, b, c); find_char(b, c); find_char(a + b, c);
    let j = find(b, seq![c]);
    if j >= 0 {
        let k = a.len() + j;
        assert((a + b).take(k) =~= a + b.take(j));
        assert((a + b).skip(k + 1) =~= b.skip(j + 1));
        assert(replace_all(a + b, seq![c], r) =~= a + replace_all(b, seq![c], r));
    }
}
pub open spec fn count(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last(), c) + if s.last() == c { 1nat } else { 0 } } }
pub proof fn count_add(a: Seq<char>, b: Seq<char>, c: char)
    ensures count(a + b, c) == count(a, c) + count(b, c),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { count_add(a, b.drop_last(), c); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn pct20(c: char)
    ensures "%20"@ == seq!['%', '2', '0'], count("%20"@, ' ') == 0, !"%20"@.contains(' '),
{
    reveal_strlit("%20");
    assert("%20"@ =~= seq!['%', '2', '0']);
    reveal_with_fuel(count, 4);
}
// One step of the loop: the first blank gives way to %20.
pub proof fn step(s: Seq<char>)
    requires find(s, seq![' ']) >= 0,
    ensures ({
        let k = find(s, seq![' ']);
        let t = s.take(k) + "%20"@ + s.skip(k + 1);
        &&& replace_all(t, seq![' '], "%20"@) == replace_all(s, seq![' '], "%20"@)
        &&& count(t, ' ') < count(s, ' ')
    }),
{
    let k = find(s, seq![' ']);
    let c = ' ';
    find_char(s, c); pct20(c);
    let r = "%20"@;
    assert(!s.take(k).contains(c)) by { if s.take(k).contains(c) { let j = choose|j: int| 0 <= j < k && s.take(k)[j] == c; assert(s[j] == c); } }
    let a = s.take(k) + r;
    assert(!a.contains(c)) by { if a.contains(c) { let j = choose|j: int| 0 <= j < a.len() && a[j] == c; if j < k { assert(s.take(k)[j] == c); } else { assert(r[j - k] == c); } } }
    replace_past(a, s.skip(k + 1), c, r);
    assert(s =~= s.take(k) + (seq![c] + s.skip(k + 1)));
    count_add(s.take(k), seq![c] + s.skip(k + 1), c);
    count_add(seq![c], s.skip(k + 1), c);
    count_add(a, s.skip(k + 1), c);
    count_add(s.take(k), r, c);
    reveal_with_fuel(count, 2);
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
}
impl InterwikiSettings {
//@fn src/settings/interwiki.rs @ `impl InterwikiSettings` build r
//@methods find is_empty
//@slices rest
//@sub `link.split_at(idx)` => `(vf_slice_to(link, idx), vf_slice_from(link, idx))`
//@sub `self.prefixes.get(prefix).map(|template| { $BODY })` => `match self.prefixes.get(prefix) { Some(template) => Some({ $BODY }), None => None }`
//@sub `template.replace(` => `template.x_replace(`
//@sub `while let Some(idx) = $e { $BODY }` => `loop { match $e { Some(idx) => { $BODY } None => { break; } } }`
//@sub `url.replace_range($a..$b, $c)` => `vf_replace_range(&mut url, $a, $b, $c)`
//@spec
    ensures match expand(self.prefixes@, link@) { Some(u) => r.is_some() && r->Some_0@ == u, None => r.is_none() },
//@at 0 `let (prefix`
    proof {
        find_char(link@, ':');
        let k = find(link@, seq![':']);
        ci_bi(link@, k);
        bi_ends(link@);
        bi_ends(link@.skip(k));
        bi_step(link@.skip(k), 0);
        ci_bi(link@.skip(k), 1);
        assert(link@.skip(k).skip(1) =~= link@.skip(k + 1));
    }
//@at 0 `let mut url`
    proof { reveal_strlit("$$"); }
    let ghost want = replace_all(template@, "$$"@, path@);
//@loop 0
    invariant
        replace_all(url@, seq![' '], "%20"@) == replace_all(want, seq![' '], "%20"@),
    ensures
        url@ == replace_all(want, seq![' '], "%20"@),
    decreases count(url@, ' '),
//@in 0
    proof {
        find_char(url@, ' ');
        let k = find(url@, seq![' ']);
        if k >= 0 { step(url@); bi_step(url@, k); ci_bi(url@, k); ci_bi(url@, k + 1); }
    }
//@end
}
