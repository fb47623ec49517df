// C17: when a list of conditions is satisfied.
use std::borrow::Cow;
//@use strx
//@type src/parsing/element_condition.rs ElementCondition
//@end
//@type src/parsing/element_condition.rs ElementConditionType
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@use pageinfo
pub open spec fn vals(v: Seq<Cow<str>>) -> Seq<Seq<char>> { v.map_values(|c: Cow<str>| c@) }
#[verifier::external_body]
pub fn vf_has(v: &[Cow<str>], x: &Cow<str>) -> (r: bool) ensures r == vals(v@).contains(x@) { unimplemented!() }

// What one word of a condition list means.
pub struct Wanted { pub ctype: ElementConditionType, pub value: Seq<char> }
pub open spec fn want(w: Seq<char>) -> Wanted {
    if starts(w, seq!['+']) { Wanted { ctype: ElementConditionType::Required, value: w.skip(1) } }
    else if starts(w, seq!['-']) { Wanted { ctype: ElementConditionType::Prohibited, value: w.skip(1) } }
    else { Wanted { ctype: ElementConditionType::Present, value: w } }
}
pub open spec fn filled(v: Seq<Seq<char>>) -> Seq<Seq<char>> { v.filter(|w: Seq<char>| w.len() > 0) }
pub open spec fn list(s: Seq<char>) -> Seq<Wanted> { filled(split(s, seq![' '])).map_values(|w: Seq<char>| want(w)) }
pub open spec fn meaning(v: Seq<ElementCondition>) -> Seq<Wanted> { v.map_values(|c: ElementCondition| Wanted { ctype: c.ctype, value: c.value@ }) }
// The documented rule.
pub open spec fn satisfied(c: Seq<Wanted>, have: Seq<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() && (#[trigger] c[i]).ctype == ElementConditionType::Required ==> have.contains(c[i].value)
    &&& forall|i: int| 0 <= i < c.len() && (#[trigger] c[i]).ctype == ElementConditionType::Prohibited ==> !have.contains(c[i].value)
    &&& (exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).ctype == ElementConditionType::Present)
        ==> exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).ctype == ElementConditionType::Present && have.contains(c[i].value)
}

//@fn src/parsing/element_condition.rs @ `fn parse` get_spec r
//@sub `fn get_spec(value: &str) -> (ElementConditionType, &str)` => `fn get_spec<'a>(value: &'a str) -> (ElementConditionType, &'a str)`
//@methods strip_prefix
//@spec
    ensures r.0 == want(value@).ctype, r.1@ == want(value@).value,
//@end
impl<'t> ElementCondition<'t> {
//@fn src/parsing/element_condition.rs @ `impl<'t> ElementCondition<'t>` parse r
//@sub `fn get_spec($a) -> ($b) { $BODY }` => ``
//@sub `raw_spec.split(' ').filter(|s| $COND).map(|s| { $BODY }).collect()` => `let vf_all = raw_spec.x_split(' '); let mut vf_out: Vec<ElementCondition<'t>> = Vec::new(); for vf_s in vf_all { let s = &vf_s; if $COND { let s = vf_s; vf_out.push({ $BODY }); } } vf_out`
//@methods is_empty
//@sub `cow!($x)` => `Cow::Borrowed($x)`
//@spec
    ensures meaning(r@) == list(raw_spec@),
//@at 0 `for vf_s`
    let ghost all = vf_all@;
    let ghost pred = |w: Seq<char>| w.len() > 0;
    let ghost f = |w: Seq<char>| want(w);
    proof {
        assert(texts(all) =~= split(raw_spec@, seq![' ']));
        assert(texts(all).take(0) =~= Seq::<Seq<char>>::empty());
        assert(meaning(vf_out@) =~= filled(texts(all).take(0)).map_values(f));
    }
//@loop 0 it
    invariant
        it.seq() == all,
        f == |w: Seq<char>| want(w),
        pred == |w: Seq<char>| w.len() > 0,
        meaning(vf_out@) == filled(texts(all).take(it.index())).map_values(f),
//@in 0
    let ghost out0 = vf_out@;
    proof {
        let n = it.index();
        assert(texts(all).take(n + 1).drop_last() =~= texts(all).take(n));
        assert(texts(all).take(n + 1).last() == vf_s@);
        reveal(Seq::filter);
    }
//@tail 0
    proof {
        let n = it.index();
        let old_f = filled(texts(all).take(n));
        if vf_s@.len() > 0 {
            assert(filled(texts(all).take(n + 1)) =~= old_f.push(vf_s@));
            assert(meaning(vf_out@) =~= meaning(out0).push(f(vf_s@)));
            assert(old_f.push(vf_s@).map_values(f) =~= old_f.map_values(f).push(f(vf_s@)));
        } else { assert(filled(texts(all).take(n + 1)) =~= old_f); }
    }
//@after 0
    proof { assert(texts(all).take(all.len() as int) =~= texts(all)); }
//@end
//@fn src/parsing/element_condition.rs @ `impl<'t> ElementCondition<'t>` check r
//@sub `values.contains(&condition.value)` => `vf_has(values, &condition.value)`
//@sub `required &= has_value` => `required = required && has_value`
//@sub `prohibited &= !has_value` => `prohibited = prohibited && !has_value`
//@sub `present |= has_value` => `present = present || has_value`
//@spec
    ensures r == satisfied(meaning(conditions@), vals(values@)),
//@pre
    let ghost c = meaning(conditions@);
    let ghost have = vals(values@);
//@loop 0 it
    invariant
        c == meaning(conditions@), have == vals(values@),
        it.seq().len() == conditions@.len(),
        forall|i: int| 0 <= i < conditions@.len() ==> *(#[trigger] it.seq()[i]) == conditions@[i],
        required <==> forall|i: int| 0 <= i < it.index() && (#[trigger] c[i]).ctype == ElementConditionType::Required ==> have.contains(c[i].value),
        prohibited <==> forall|i: int| 0 <= i < it.index() && (#[trigger] c[i]).ctype == ElementConditionType::Prohibited ==> !have.contains(c[i].value),
        had_present <==> exists|i: int| 0 <= i < it.index() && (#[trigger] c[i]).ctype == ElementConditionType::Present,
        present <==> exists|i: int| 0 <= i < it.index() && (#[trigger] c[i]).ctype == ElementConditionType::Present && have.contains(c[i].value),
//@in 0
    proof {
        let n = it.index();
        assert(c[n].ctype == condition.ctype && c[n].value == condition.value@);
    }
//@end
}
//@fn src/parsing/rule/impls/block/blocks/iftags.rs check_iftags r
//@spec
    ensures r == satisfied(meaning(conditions@), vals(info.tags@)),
//@end
pub open spec fn category(info: &PageInfo) -> Seq<char> { match info.category { Some(c) => c@, None => "_default"@ } }
//@use cowtext
//@fn src/parsing/rule/impls/block/blocks/ifcategory.rs check_ifcategory r
//@sub `Some(category) => category` => `Some(category) => vf_text(category)`
//@sub `cow!($x)` => `Cow::Borrowed($x)`
//@sub `ElementCondition::check($a, &[$x])` => `let vf_v = [$x]; ElementCondition::check($a, &vf_v)`
//@spec
    ensures r == satisfied(meaning(conditions@), seq![category(info)]),
//@at 0 `ElementCondition::check`
    proof { assert(vals(vf_v@) =~= seq![crate::category(info)]); }
//@end
