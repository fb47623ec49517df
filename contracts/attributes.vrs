// C04, C05: which attributes are kept, and with what values.
use std::borrow::Cow;
//@use strmap unicase
//@import args url ids
//@type src/settings/mod.rs WikitextSettings
//@keep isolate_user_ids
//@end
pub type Attr<'t> = UniCase<&'t str>;
// The documented allow-list.
pub open spec fn safe_list() -> Seq<&'static str> {
    seq!["accept", "align", "alt", "autocapitalize", "autoplay", "background", "bgcolor", "border", "buffered", "checked",
        "cite", "class", "cols", "colspan", "contenteditable", "controls", "coords", "datetime", "decoding", "default", "dir",
        "dirname", "disabled", "download", "draggable", "for", "form", "headers", "height", "hidden", "high", "href",
        "hreflang", "id", "inputmode", "ismap", "itemprop", "kind", "label", "lang", "list", "loop", "low", "max", "maxlength",
        "min", "minlength", "multiple", "muted", "name", "optimum", "pattern", "placeholder", "poster", "preload", "readonly",
        "required", "reversed", "role", "rows", "rowspan", "scope", "selected", "shape", "size", "sizes", "span", "spellcheck",
        "src", "srclang", "srcset", "start", "step", "style", "tabindex", "target", "title", "translate", "type", "usemap",
        "value", "width", "wrap"]
}
pub open spec fn boolean_list() -> Seq<&'static str> {
    seq!["allowfullscreen", "allowpaymentrequest", "async", "autofocus", "autoplay", "checked", "controls", "default",
        "disabled", "formnovalidate", "hidden", "ismap", "itemscope", "loop", "multiple", "muted", "nomodule", "novalidate",
        "open", "playsinline", "readonly", "required", "reversed", "selected", "truespeed"]
}
pub open spec fn url_list() -> Seq<&'static str> {
    seq!["href", "src"]
}
//@type src/tree/attribute/safe.rs SAFE_ATTRIBUTES
//@sub `static SAFE_ATTRIBUTES: Lazy<HashSet<UniCase<&'static str>>> = Lazy::new(|| { hashset_unicase![ $x ] });` => `fn SAFE_ATTRIBUTES() -> (r: Vec<&'static str>) ensures r@ == safe_list() { vec![ $x ] }`
//@end
//@type src/tree/attribute/safe.rs BOOLEAN_ATTRIBUTES
//@sub `static BOOLEAN_ATTRIBUTES: Lazy<HashSet<UniCase<&'static str>>> = Lazy::new(|| { hashset_unicase![ $x ] });` => `fn BOOLEAN_ATTRIBUTES() -> (r: Vec<&'static str>) ensures r@ == boolean_list() { vec![ $x ] }`
//@end
//@type src/tree/attribute/safe.rs URL_ATTRIBUTES
//@sub `static URL_ATTRIBUTES: Lazy<HashSet<UniCase<&'static str>>> = Lazy::new(|| hashset_unicase![ $x ]);` => `fn URL_ATTRIBUTES() -> (r: Vec<&'static str>) ensures r@ == url_list() { vec![ $x ] }`
//@end
//@type src/tree/attribute/safe.rs SAFE_ATTRIBUTE_PREFIXES
//@sub `[&str; 2]` => `[&'static str; 2]`
//@end
pub open spec fn listed(l: Seq<&'static str>, a: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && eq_nocase(#[trigger] l[i]@, a) }
#[verifier::external_body]
pub fn vf_listed(l: Vec<&'static str>, a: &Attr) -> (r: bool) ensures r == listed(l@, a@) { unimplemented!() }
//@assume regular expression [A-Za-z0-9\-]+ anchored at both ends accepts the texts of one or more ASCII letters, digits and hyphens
pub open spec fn plain(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' }
pub open spec fn all_plain(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
#[verifier::external_body]
pub fn vf_suffix_regex(s: &str) -> (r: bool) ensures r == all_plain(s@) { unimplemented!() }
pub open spec fn safe(a: Seq<char>) -> bool { listed(safe_list(), a) || ((starts(a, "aria-"@) || starts(a, "data-"@)) && all_plain(a)) }
//@fn src/tree/attribute/safe.rs is_safe_attribute r
//@sub `SAFE_ATTRIBUTES.contains(&attribute)` => `vf_listed(SAFE_ATTRIBUTES(), &attribute)`
//@sub `ATTRIBUTE_SUFFIX_SAFE.is_match(&attribute)` => `vf_suffix_regex(attribute.to_str())`
//@sub `attribute.starts_with(prefix)` => `attribute.to_str().x_starts_with(prefix)`
//@spec
    ensures r == safe(attribute@),
//@loop 0 it
    invariant
        it.seq().len() == 2,
        *it.seq()[0] == "aria-", *it.seq()[1] == "data-",
        !listed(safe_list(), attribute@),
        it.index() > 0 ==> !(starts(attribute@, "aria-"@) && all_plain(attribute@)),
        it.index() > 1 ==> !(starts(attribute@, "data-"@) && all_plain(attribute@)),
//@end
// What becomes of the value of an allowed attribute; None: left out.
pub open spec fn truth(a: Seq<char>, v: Seq<char>) -> Option<Seq<char>> {
    if listed(boolean_list(), a) { match boolean(v) { Some(true) => Some(Seq::empty()), Some(false) => None, None => Some(v) } } else { Some(v) }
}
pub open spec fn treat(a: Seq<char>, v: Seq<char>) -> Option<Seq<char>> {
    match truth(a, v) { Some(w) => Some(if listed(url_list(), a) { href(w) } else { w }), None => None }
}
#[verifier::external_body]
pub fn vf_clone<'a>(c: &Cow<'a, str>) -> (r: Cow<'a, str>) ensures r@ == c@ { unimplemented!() }
#[verifier::external_body]
pub fn vf_into_owned(c: Cow<str>) -> (r: String) ensures r@ == c@ { unimplemented!() }
// The body of the closure given to filter_map.
//@fn src/tree/attribute/mod.rs @ `impl<'t> AttributeMap<'t>` from_arguments r
//@rename vf_entry
//@sub `let inner = arguments.iter().filter($f).filter_map(|(key, value)| { $BODY }).collect(); AttributeMap { inner }` => `$BODY`
//@sub `Cow::clone(value)` => `vf_clone(value)`
//@sub `BOOLEAN_ATTRIBUTES.contains(key)` => `vf_listed(BOOLEAN_ATTRIBUTES(), key)`
//@sub `URL_ATTRIBUTES.contains(key)` => `vf_listed(URL_ATTRIBUTES(), key)`
//@sub `parse_boolean(&value)` => `parse_boolean(vf_text(&value))`
//@sub `normalize_href(&value).into_owned()` => `vf_into_owned(normalize_href(vf_text(&value)))`
//@sub `cow!("")` => `Cow::Borrowed("")`
//@methods to_ascii_lowercase
//@sig
pub fn vf_entry<'t>(key: &Attr<'t>, value: &Cow<'t, str>) -> (r: Option<(Cow<'t, str>, Cow<'t, str>)>)
//@spec
    ensures match treat(key@, value@) { Some(v) => r.is_some() && r->Some_0.0@ == lower(key@) && r->Some_0.1@ == v, None => r.is_none() },
//@pre
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
// HashMap<UniCase<&str>, Cow<str>> as its entries; no two names are the same but for case.
#[verifier::external_body]
pub struct ArgMap<'t> { m: std::collections::HashMap<&'t str, Cow<'t, str>> }
impl<'t> ArgMap<'t> {
    pub uninterp spec fn view(&self) -> Seq<(Attr<'t>, Cow<'t, str>)>;
    #[verifier::external_body]
    pub fn entries<'a>(&'a self) -> (r: Vec<(&'a Attr<'t>, &'a Cow<'t, str>)>)
        ensures
            r.len() == self@.len(),
            forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]).0 == self@[i].0 && *r[i].1 == self@[i].1,
            forall|i: int, j: int| 0 <= i < j < self@.len() ==> lower((#[trigger] self@[i]).0@) != lower((#[trigger] self@[j]).0@),
    { unimplemented!() }
}
//@type src/tree/attribute/mod.rs AttributeMap
//@sub `struct AttributeMap<'t>` => `struct AttributeMap`
//@sub `BTreeMap<Cow<'t, str>, Cow<'t, str>>` => `StrMap`
//@end
pub open spec fn kept(m: Map<Seq<char>, Seq<char>>, e: Seq<(Attr, Cow<str>)>, n: int) -> bool {
    // every allowed argument is there with its treated value ...
    &&& forall|i: int| 0 <= i < n && safe((#[trigger] e[i]).0@) && treat(e[i].0@, e[i].1@).is_some()
            ==> m.contains_key(lower(e[i].0@)) && m[lower(e[i].0@)] == treat(e[i].0@, e[i].1@)->Some_0
    // ... and nothing else is
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && safe((#[trigger] e[i]).0@) && lower(e[i].0@) == k && treat(e[i].0@, e[i].1@) == Some(m[k])
}
impl AttributeMap {
//@fn src/tree/attribute/mod.rs @ `impl<'t> AttributeMap<'t>` from_arguments r
//@sub `arguments.iter().filter(|(&key, _)| $COND).filter_map(|(key, value)| { $BODY }).collect();` => `{ let mut vf_map = StrMap::new(); for vf_e in arguments.entries() { let key = UniCase { s: vf_e.0.s }; if $COND { match vf_entry(vf_e.0, vf_e.1) { Some((vf_k, vf_v)) => { vf_map.insert(vf_k, vf_v); } None => {} } } } vf_map };`
//@sig
fn from_arguments(arguments: &ArgMap) -> (r: Self)
//@spec
    ensures kept(r.inner@, arguments@, arguments@.len() as int),
//@loop 0 it
    invariant
        it.seq().len() == arguments@.len(),
        forall|i: int| 0 <= i < arguments@.len() ==> *(#[trigger] it.seq()[i]).0 == arguments@[i].0 && *it.seq()[i].1 == arguments@[i].1,
        forall|i: int, j: int| 0 <= i < j < arguments@.len() ==> lower((#[trigger] arguments@[i]).0@) != lower((#[trigger] arguments@[j]).0@),
        kept(vf_map@, arguments@, it.index() as int),
//@in 0
    let ghost m0 = vf_map@;
    let ghost n = it.index();
    proof { assert(*vf_e.0 == arguments@[n].0 && *vf_e.1 == arguments@[n].1); }
//@tail 0
    proof {
        let e = arguments@;
        assert(kept(vf_map@, e, n + 1)) by {
            assert forall|k: Seq<char>| #[trigger] vf_map@.contains_key(k) implies exists|i: int| 0 <= i < n + 1 && safe((#[trigger] e[i]).0@) && lower(e[i].0@) == k && treat(e[i].0@, e[i].1@) == Some(vf_map@[k]) by {
                if m0.contains_key(k) && !(safe(e[n].0@) && treat(e[n].0@, e[n].1@).is_some() && lower(e[n].0@) == k) {
                    let i = choose|i: int| 0 <= i < n && safe((#[trigger] e[i]).0@) && lower(e[i].0@) == k && treat(e[i].0@, e[i].1@) == Some(m0[k]);
                    assert(0 <= i < n + 1 && safe(e[i].0@));
                } else { assert(0 <= n < n + 1 && safe(e[n].0@)); }
            }
        }
    }
//@end
//@fn src/tree/attribute/mod.rs @ `impl<'t> AttributeMap<'t>` insert r
//@sub `cow!(attribute)` => `Cow::Borrowed(attribute)`
//@sig
fn insert<'t>(&mut self, attribute: &'t str, value: Cow<'t, str>) -> (r: bool)
//@spec
    ensures r == safe(attribute@), final(self).inner@ == if r { old(self).inner@.insert(attribute@, value@) } else { old(self).inner@ },
//@end
//@fn src/tree/attribute/mod.rs @ `impl<'t> AttributeMap<'t>` isolate_id
//@sub `isolate_ids(value)` => `isolate_ids(vf_text(value))`
//@spec
    ensures final(self).inner@ == if settings.isolate_user_ids && old(self).inner@.contains_key("id"@) { old(self).inner@.insert("id"@, isolated(old(self).inner@["id"@])) } else { old(self).inner@ },
//@end
//@fn src/tree/attribute/mod.rs @ `impl<'t> AttributeMap<'t>` to_owned r
//@sub `BTreeMap::new()` => `StrMap::new()`
//@sub `self.inner.iter()` => `vf_pairs(&self.inner)`
//@sub `let key = string_to_owned(key);` => `let key = vf_copied(key);`
//@sub `let value = string_to_owned(value);` => `let value = vf_copied(value);`
//@sig
fn to_owned(&self) -> (r: AttributeMap)
//@spec
    ensures r.inner@ == self.inner@,
//@loop 0 it
    invariant
        pairs_of(it.seq(), self.inner@),
        forall|k: Seq<char>| #[trigger] inner@.contains_key(k) ==> self.inner@.contains_key(k) && inner@[k] == self.inner@[k],
        forall|i: int| 0 <= i < it.index() ==> inner@.contains_key((#[trigger] it.seq()[i]).0@),
//@in 0
    proof { assert(self.inner@.contains_key(it.seq()[it.index() as int].0@)); }
//@after 0
    proof { assert(inner@ =~= self.inner@); }
//@end
}
// What a block makes of its arguments.
pub open spec fn isolated_map(m: Map<Seq<char>, Seq<char>>, on: bool) -> Map<Seq<char>, Seq<char>> {
    if on && m.contains_key("id"@) { m.insert("id"@, isolated(m["id"@])) } else { m }
}
pub open spec fn attributes_from(r: Map<Seq<char>, Seq<char>>, e: Seq<(Attr, Cow<str>)>, on: bool) -> bool {
    exists|m: Map<Seq<char>, Seq<char>>| #[trigger] kept(m, e, e.len() as int) && r == isolated_map(m, on)
}
// The variables given to an included page: the names as they are written.
pub open spec fn variables_from(m: Map<Seq<char>, Seq<char>>, e: Seq<(Attr, Cow<str>)>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] e[i]).0@) && m[e[i].0@] == e[i].1@
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k
}
//@type src/parsing/rule/impls/block/arguments.rs Arguments
//@sub `HashMap<UniCase<&'t str>, Cow<'t, str>>` => `ArgMap<'t>`
//@end
impl<'t> Arguments<'t> {
//@fn src/parsing/rule/impls/block/arguments.rs @ `impl<'t> Arguments<'t>` to_attribute_map r
//@sig
fn to_attribute_map(&self, settings: &WikitextSettings) -> (r: AttributeMap)
//@spec
    ensures attributes_from(r.inner@, self.inner@, settings.isolate_user_ids),
//@past 0 `AttributeMap::from_arguments(&self.inner);`
    let ghost m0 = map.inner@;
//@at 0 `map }`
    proof { assert(kept(m0, self.inner@, self.inner@.len() as int)); assert(map.inner@ =~= isolated_map(m0, settings.isolate_user_ids)); }
//@end
//@fn src/parsing/rule/impls/block/arguments.rs @ `impl<'t> Arguments<'t>` to_hash_map r
//@sub `self.inner.iter().map(|(key, value)| { $BODY }).collect()` => `{ let mut vf_map = StrMap::new(); for vf_e in self.inner.entries() { let key = vf_e.0; let value = vf_e.1; let vf_kv = { $BODY }; vf_map.insert(vf_kv.0, vf_kv.1); } vf_map }`
//@sub `cow!(key.into_inner())` => `Cow::Borrowed(key.to_str())`
//@sub `value.clone()` => `vf_clone(value)`
//@sig
fn to_hash_map(&self) -> (r: StrMap)
//@spec
    ensures variables_from(r@, self.inner@, self.inner@.len() as int),
//@loop 0 it
    invariant
        it.seq().len() == self.inner@.len(),
        forall|i: int| 0 <= i < self.inner@.len() ==> *(#[trigger] it.seq()[i]).0 == self.inner@[i].0 && *it.seq()[i].1 == self.inner@[i].1,
        forall|i: int, j: int| 0 <= i < j < self.inner@.len() ==> lower((#[trigger] self.inner@[i]).0@) != lower((#[trigger] self.inner@[j]).0@),
        variables_from(vf_map@, self.inner@, it.index() as int),
//@in 0
    let ghost m0 = vf_map@;
    let ghost n = it.index();
    proof { assert(*vf_e.0 == self.inner@[n].0 && *vf_e.1 == self.inner@[n].1); }
//@tail 0
    proof {
        let e = self.inner@;
        assert(variables_from(vf_map@, e, n + 1)) by {
            assert forall|k: Seq<char>| #[trigger] vf_map@.contains_key(k) implies exists|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0@ == k by {
                if m0.contains_key(k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k; assert(0 <= i < n + 1 && e[i].0@ == k); }
                else { assert(0 <= n < n + 1 && e[n].0@ == k); }
            }
        }
    }
//@end
}
// The keys and values of a map, each once.
pub open spec fn pairs_of(p: Seq<(&Cow<str>, &Cow<str>)>, m: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> m.contains_key((#[trigger] p[i]).0@) && m[p[i].0@] == p[i].1@
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0@ == k
}
#[verifier::external_body]
pub fn vf_pairs<'a>(m: &'a StrMap) -> (r: Vec<(&'a Cow<'a, str>, &'a Cow<'a, str>)>) ensures pairs_of(r@, m@) { unimplemented!() }
// string_to_owned (unit owned)
#[verifier::external_body]
pub fn vf_copied<'a>(s: &Cow<'a, str>) -> (r: Cow<'static, str>) ensures r@ == s@ { unimplemented!() }
