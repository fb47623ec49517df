// C05: user-given ids.
use std::borrow::Cow;
//@use strx
pub open spec fn pre(w: Seq<char>) -> Seq<char> { if starts(w, "u-"@) { w } else { "u-"@ + w } }
// Every word of the value, prefixed once.
pub open spec fn isolated(s: Seq<char>) -> Seq<char> { join(words(s).map_values(|w: Seq<char>| pre(w)), seq![' ']) }
pub proof fn words_nonempty(s: Seq<char>, i: int)
    requires 0 <= i < words(s).len(),
    ensures words(s)[i].len() > 0,
    decreases s.len(),
{
    if is_ws(s[0]) { words_nonempty(s.skip(1), i); }
    else { run_le(s); if i > 0 { words_nonempty(s.skip(run(s) as int), i - 1); } }
}
pub proof fn join_push(v: Seq<Seq<char>>, x: Seq<char>, sep: Seq<char>)
    ensures v.len() > 0 ==> join(v.push(x), sep) == join(v, sep) + sep + x, v.len() == 0 ==> join(v.push(x), sep) == x,
    decreases v.len(),
{
    reveal_with_fuel(join, 3);
    if v.len() == 1 { assert(v.push(x).skip(1) =~= seq![x]); assert(v.push(x).skip(1)[0] == x); assert(v.push(x)[0] == v[0]); assert(join(v.push(x), sep) =~= v[0] + sep + x); }
    else if v.len() > 1 {
        join_push(v.skip(1), x, sep);
        assert(v.push(x).skip(1) =~= v.skip(1).push(x));
        assert(join(v.push(x), sep) =~= join(v, sep) + sep + x);
    } else { assert(v.push(x)[0] == x); }
}
pub proof fn join_nonempty(v: Seq<Seq<char>>, sep: Seq<char>)
    requires v.len() > 0, v[0].len() > 0,
    ensures join(v, sep).len() > 0,
{ }
//@fn src/id_prefix.rs isolate_ids r
//@sub `const PREFIX: &str = "u-";` => `let PREFIX: &'static str = "u-";`
//@methods split_whitespace starts_with push_str push is_empty
//@sub `String::new()` => `vf_empty_string()`
//@spec
    ensures r@ == isolated(id_string@),
//@loop 0 it
    invariant
        PREFIX@ == "u-"@,
        it.seq().len() == words(id_string@).len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == words(id_string@)[i],
        f == |w: Seq<char>| pre(w),
        isolated_ids@ == join(words(id_string@).take(it.index()).map_values(f), seq![' ']),
        it.index() > 0 ==> isolated_ids@.len() > 0,
        it.index() == 0 ==> isolated_ids@.len() == 0,
//@outside 0
    let ghost f = |w: Seq<char>| pre(w);
    proof { assert(words(id_string@).take(0).map_values(f) =~= Seq::<Seq<char>>::empty()); }
//@in 0
    let ghost ids0 = isolated_ids@;
    proof {
        let n = it.index();
        let w = words(id_string@);
        words_nonempty(id_string@, n);
        assert(w.take(n + 1).map_values(f) =~= w.take(n).map_values(f).push(pre(w[n])));
        join_push(w.take(n).map_values(f), pre(w[n]), seq![' ']);
        reveal_strlit("u-");
    }
//@tail 0
    proof {
        let n = it.index();
        let w = words(id_string@);
        let sep = if n > 0 { ids0 + seq![' '] } else { ids0 };
        assert(isolated_ids@ =~= sep + pre(w[n]));
        if n == 0 { assert(ids0 =~= Seq::<char>::empty()); assert(isolated_ids@ =~= pre(w[n])); }
    }
//@after 0
    proof { assert(words(id_string@).take(words(id_string@).len() as int) =~= words(id_string@)); }
//@end
#[verifier::external_body]
pub fn vf_empty_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
