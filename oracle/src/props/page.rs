//! Monitors which look at rendered pages: URLs, attributes, ids, footnotes,
//! tables of contents, bibliographies, lists, literal text, names, paragraphs.
use super::build::{self, anycase, esc, G, Piece};
use crate::{case::*, env::{self, *}, gen, html::{self, Node}, refhtml, rng::Rng};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

fn cut<'a>(s: &'a str, bad: &[&str]) -> bool { !bad.iter().any(|b| s.contains(b)) }
/// True when preprocessing leaves the text alone.
/// True when preprocessing changes nothing but line ends at the ends.
pub fn settled_lines(s: &str) -> bool { let mut t = s.to_string(); ftml::preprocess(&mut t); t.trim_matches('\n') == s.trim_matches('\n') }
pub fn settled(s: &str) -> bool { let mut t = s.to_string(); ftml::preprocess(&mut t); t == s }

// ---- C03 -----------------------------------------------------------------

const URLISH: &[&str] = &["href", "src", "srcset", "action", "formaction", "poster", "cite", "background", "data", "longdesc", "codebase", "profile", "usemap", "xlink:href"];
/// The scheme a browser would see.
fn scheme(url: &str) -> String {
    let s = url.trim_start_matches(|c: char| c <= ' ');
    let s: String = s.chars().filter(|c| !matches!(c, '\t' | '\n' | '\r')).collect();
    match s.split_once(':') { Some((a, _)) if !a.contains(['/', '#', '?']) => a.to_ascii_lowercase(), _ => String::new() }
}
fn safe_url(url: &str) -> bool { url == "javascript:;" || !matches!(scheme(url).as_str(), "javascript" | "data") }
/// The picture of a user is not given by the author.
fn avatar(n: &Node, v: &str) -> bool { n.tag() == "img" && n.has_class("wj-user-info-avatar") && v.starts_with("data:image/png;base64,") }
fn check_urls(nodes: &[Node]) -> Result<bool, String> {
    let mut err = None; let mut any = false;
    for n in nodes { n.walk(&mut |n| for k in ["href", "src"] { if let Some(v) = n.attr(k) { any = true; if !safe_url(v) && !avatar(n, v) { err = Some(format!("<{} {k}={v:?}>", n.tag())); } } }); }
    for n in nodes { n.walk(&mut |n| for k in URLISH { if n.tag() == "a" || n.tag() == "img" || n.tag() == "iframe" { if let Some(v) = n.attr(k) { if !safe_url(v) && !avatar(n, v) { err = Some(format!("<{} {k}={v:?}>", n.tag())); } } } }); }
    match err { Some(e) => Err(format!("script URL in the output: {e}")), None => Ok(any) }
}
fn urls(text: &str, a: &Value) -> Outcome { with(text, a, |d| check_urls(&d.nodes()?)) }

fn spell(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        o.push(match r.below(6) { 0 => c.to_ascii_uppercase(), _ => c });
        if r.chance(1, 18) { o.push_str(*r.pick(&[" ", "\t", "\u{1}", "\u{b}", "\u{c}", "\u{a0}", "\u{200b}", "\u{ad}", "\u{feff}", "_", "-", ".", "+", "&colon;", "%0a"])); }
    }
    o
}
fn url(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 5) { s.push_str(*r.pick(&[" ", "\u{1}", "\t", "/", "//", "#", "?", "\u{a0}", "\u{1f}", "./", "\u{feff}", "http://x", "javascript:;", "*", "\u{2028}"])); }
    let base = *r.pick(&["javascript", "data", "javascript", "javascript", "data", "jav\u{17f}cript", "java\u{17f}cript", "vbscript", "http", "https", "https", "mailto", "ftp", "x-y", "blob", "page", "Some Page", "\u{ff4a}avascript"]);
    s.push_str(&spell(r, base));
    s.push_str(*r.pick(&[":", ":", ":", "://", " :", ": ", "&#58;", "\u{ff1a}", "%3a", ""]));
    s.push_str(*r.pick(&["alert(1)", "text/html,x", ";", ";//", "e.com/a", "e.com/a?b=c#d", "", "//%0aalert(1)", "page/sub", "a:b"]));
    s
}
const LINKS: &[&str] = &["[U lab]", "[*U lab]", "[[[U|lab]]]", "[[[*U|lab]]]", "[[[U]]]", "[[[U|]]]", "[[a href=\"U\"]]x[[/a]]", "[[*a HREF=\"U\"]]x[[/a]]", "[[a_ Href=\"U\"]]x[[/a]]", "[[anchor href=\"U\"]]x[[/anchor]]", "[[image U]]", "[[=image U]]", "[[image https://e.com/x.png link=\"U\"]]", "[[image x.png link=\"U\"]]", "[[image https://e.com/x.png src=\"U\"]]", "[[image x.png LINK=\"*U\"]]", "[[iframe U]]", "[[iframe https://e.com SRC=\"U\"]]", "[[span href=\"U\"]]x[[/span]]", "[[div SrC=\"U\"]]\nx\n[[/div]]", "[[checkbox href=\"U\"]]", "[[radio a src=\"U\"]]", "[[table src=\"U\"]][[row href=\"U\"]][[cell href=\"U\"]]x[[/cell]][[/row]][[/table]]", "[[ul href=\"U\"]][[li src=\"U\"]]x[[/li]][[/ul]]", "[[collapsible href=\"U\"]]x[[/collapsible]]", " U ", "[[user U]]", "[[file U]]", "[[b href=\"javascript:;\" src=\"U\"]]x[[/b]]", "[[embed youtube video=\"U\"]]", "[[include U]]", "[#U lab]", "[[[#U|lab]]]", "[[[!wp:U|x]]]", "[[[:site:U|x]]]", "[[footnote]][U a][[/footnote]]", "[[tabview]]\n[[tab x]]\n[U a]\n[[/tab]]\n[[/tabview]]", "||[U a]||", "[[p src=\"U\"]]x[[/p]]", "[[span src=\"#\" SRC=\"U\"]]x[[/span]]"];
fn hostile(r: &mut Rng) -> (String, Value) {
    let mut s = String::new();
    for _ in 0..1 + r.below(2) { let u = url(r); s.push_str(&r.pick(LINKS).replace('U', &u)); if r.chance(1, 2) { s.push('\n'); } }
    (s, json!({"mode": r.below(5), "wj": r.chance(1, 2)}))
}
/// What a written target has to become.
fn target(u: &str) -> String { refhtml::href(u) }
const EXACT: &[(&str, &str, &str)] = &[("[[a href=\"", "\"]]x[[/a]]", "a"), ("[[*anchor HREF=\"", "\"]]x[[/anchor]]", "a"), ("[[span href=\"", "\"]]x[[/span]]", "span"), ("[[iframe ", "]]", "iframe"), ("[[div class=\"k\" Src=\"", "\"]]\nx\n[[/div]]", "div"), ("[[image https://e.com/i.png link=\"", "\"]]", "a"), ("[[li src=\"", "\"]]x[[/li]]", "li"), ("[", " lab]", "a"), ("[[[", "|lab]]]", "a")];
fn exact(r: &mut Rng) -> (String, Value) {
    let u = match r.below(4) {
        0 => { let a = *r.pick(&["javascript", "data", "JavaScript", "DATA", "dAtA", "javaScript-x", "data_", "x-javascript", "javascripts", "dat", "é", "日本", "java-script", "wiki", "a-b_c", "1"]); format!("{a}:{}", *r.pick(&["alert(1)", "x", "", ";", "a/b#c", "//e.com"])) }
        1 => format!("{}{}", *r.pick(&["blob:", "chrome-extension://", "chrome://", "content://", "dns:", "feed:", "file://", "ftp://", "git://", "gopher://", "http://", "https://", "irc6://", "irc://", "ircs://", "mailto:", "resource://", "rtmp://", "sftp://", "HTTP://", "Mailto:", "http:", "https:/", "sftp:"]), *r.pick(&["e.com", "A/b?c=d&e#f", "x.y/javascript:z", ""])),
        2 => format!("{}{}", *r.pick(&["#", "/", "", "//", "/x/"]), *r.pick(&["Top", "some-page", "Some_Page/Edit", "a/b/c#d/e", "x#y:z", "_template", "cat:page", "a.b(c)", "é/É"])),
        _ => "javascript:;".into(),
    };
    let (o, c, tag) = *r.pick(EXACT);
    let single = o == "[" || o == "[[[";
    // single links only take URLs and local paths; triple links split sites, anchors and labels
    if single { let u = if r.chance(1, 2) { format!("https://e.com/{}", *r.pick(&["A?b=c", "x#y", "data:z"])) } else { format!("mailto:{}", *r.pick(&["a@b.c", "X"])) }; if !(o == "[[[" && u.starts_with("mailto")) { return (format!("{o}{u}{c}"), json!({"tag": tag, "url": u, "wj": false})); } }
    if o.contains("li ") { return (format!("[[ul]]{o}{u}{c}[[/ul]]"), json!({"tag": tag, "url": u, "wj": false})); }
    if single || (o.contains("link=") && (u.contains(':') && !u.contains("://") || !u.starts_with('/') )) || (o.contains("iframe") && !refhtml::is_url(&u)) { return (format!("[[a href=\"{u}\"]]x[[/a]]"), json!({"tag": "a", "url": u, "wj": true})); }
    (format!("{o}{u}{c}"), json!({"tag": tag, "url": u, "wj": true}))
}
fn exactly(text: &str, a: &Value) -> Outcome {
    let Some(u) = a["url"].as_str() else { return Ok(false) };
    if !settled(text) || u.is_empty() { return Ok(false); }
    with(text, a, |d| {
        let nodes = d.nodes()?; let mut found = vec![];
        for n in &nodes { n.walk(&mut |n| if n.tag() == a["tag"].as_str().unwrap() { for k in ["href", "src"] { if let Some(v) = n.attr(k) { found.push(v.to_string()); } } }); }
        let want = target(u);
        if found != [want.clone()] { return Err(format!("target {u:?} is written as {found:?}, expected {want:?}")); }
        check_urls(&nodes)?;
        Ok(true)
    })
}
fn page(r: &mut Rng) -> (String, Value) { (gen::document(r), env::any(r)) }
pub fn c03() -> Vec<Sub> {
    vec![Sub { name: "hostile", weight: 3, gen: hostile, run: urls, fixed: none }, Sub { name: "exact", weight: 2, gen: exact, run: exactly, fixed: none }, Sub { name: "documents", weight: 1, gen: page, run: urls, fixed: none }]
}

// ---- C04, C05 ------------------------------------------------------------

const SAFE: &str = "accept align alt autocapitalize autoplay background bgcolor border buffered checked cite class cols colspan contenteditable controls coords datetime decoding default dir dirname disabled download draggable for form headers height hidden high href hreflang id inputmode ismap itemprop kind label lang list loop low max maxlength min minlength multiple muted name optimum pattern placeholder poster preload readonly required reversed role rows rowspan scope selected shape size sizes span spellcheck src srclang srcset start step style tabindex target title translate type usemap value width wrap";
const BOOLEANS: &str = "allowfullscreen allowpaymentrequest async autofocus autoplay checked controls default disabled formnovalidate hidden ismap itemscope loop multiple muted nomodule novalidate open playsinline readonly required reversed selected truespeed";
const BAD: &str = "onclick onload onmouseover onerror ONCLICK formaction srcdoc http-equiv is nonce integrity ping manifest action method enctype rel xmlns part slot open async autofocus allowfullscreen itemscope nomodule novalidate crossorigin sandbox accesskey style2 xstyle class2 idx aria data dat-x ari-x xaria-label xdata-a on aria_x data_x -data-x datax";
fn safe(name: &str) -> bool {
    let l = name.to_ascii_lowercase();
    SAFE.split(' ').any(|s| s == l) || ["aria-", "data-"].iter().any(|p| name.starts_with(p) && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-'))
}
fn boolean(v: &str) -> Option<bool> {
    match v.trim().to_ascii_lowercase().as_str() { "true" | "t" | "1" | "yes" => Some(true), "false" | "f" | "0" | "no" => Some(false), _ => None }
}
pub fn isolated(v: &str, iso: bool) -> String {
    if !iso { return v.into(); }
    v.split_whitespace().map(|w| if w.starts_with("u-") { w.into() } else { format!("u-{w}") }).collect::<Vec<_>>().join(" ")
}
fn expected(args: &[(String, String)], iso: bool) -> BTreeMap<String, String> {
    let mut last: BTreeMap<String, (String, String)> = BTreeMap::new();
    for (k, v) in args { last.insert(k.to_ascii_lowercase(), (k.clone(), v.clone())); }
    let mut m = BTreeMap::new();
    for (l, (k, v)) in last {
        if !safe(&k) { continue; }
        let mut v = v;
        if BOOLEANS.split(' ').any(|b| b == l) { match boolean(&v) { Some(true) => v = String::new(), Some(false) => continue, None => {} } }
        if l == "href" || l == "src" { v = target(&v); }
        if l == "id" { v = isolated(&v, iso); }
        m.insert(l, v);
    }
    m
}
fn arguments(r: &mut Rng, prefer: Option<&str>) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let n = 1 + r.below(4);
    for i in 0..n {
        let k = if i == 0 && prefer.is_some() { anycase(r, prefer.unwrap()) } else { match r.below(9) {
            0..=2 => { let all: Vec<&str> = SAFE.split(' ').collect(); let k = *r.pick(&all); anycase(r, k) }
            3 => { let all: Vec<&str> = BOOLEANS.split(' ').collect(); let k = *r.pick(&all); anycase(r, k) }
            4 => { let all: Vec<&str> = BAD.split(' ').collect(); let k = *r.pick(&all); anycase(r, k) }
            5 | 6 => { let mut s = r.pick(&["aria-", "data-"]).to_string(); for _ in 0..r.below(6) { s.push(*r.pick(&['a', 'Z', '0', '-', 'x', '_', '9', 'k'])); } s }
            7 => { let all: Vec<&str> = SAFE.split(' ').collect(); let mut k = r.pick(&all).to_string(); match r.below(4) { 0 => { k.pop(); } 1 => k.push('s'), 2 => k.insert(0, 'x'), _ => k.insert(k.len() / 2, '-') } k }
            _ => { let mut s = String::new(); for _ in 0..1 + r.below(6) { s.push(*r.pick(&['a', 'o', 'n', 'S', 'd', '-', '_', '1', 'i'])); } s }
        } };
        if k.is_empty() || k.contains("--") || k.contains("__") { continue; }
        let low = k.to_ascii_lowercase();
        if v.iter().any(|(x, _)| x.to_ascii_lowercase() == low) && !(safe(&k) && !k.contains('-')) { continue; }
        let value = match r.below(6) {
            0 => r.pick(&["true", "false", "YES", "no", " t ", "F", "1", "0", "True", "maybe", "2", "yess"]).to_string(),
            1 => r.pick(&["javascript:alert(1)", "https://e.com/A?b&c", "#x", "some page", "data:x", "/p/Q"]).to_string(),
            2 => r.pick(&["a b", "u-a  b", " x ", "u-u-y z", "", "UP case", "\u{e9} \u{65e5}"]).to_string(),
            _ => { let mut s = String::new(); for _ in 0..r.below(5) { s.push_str(*r.pick(&["x", "<b>", "&amp;", "'", "\"", "\\", "=", " ", "]", "[[", "{$v}", "%", "&", ";", "\u{1f4af}", "\u{e9}", "//", "**", "--]", "[!-", "@@", "|"])); } s }
        };
        v.push((k, value));
    }
    v
}
fn quoted(v: &str) -> String { format!("\"{}\"", v.replace('\\', "\\\\").replace('"', "\\\"")) }
/// (opening, rest, tag, attributes the element has of its own, how many of it)
const HOSTS: &[(&str, &str, &str, &[(&str, &str)])] = &[
    ("[[span", "]]x[[/span]]", "span", &[]), ("[[div", "]]\nx\n[[/div]]", "div", &[]), ("[[b", "]]x[[/b]]", "strong", &[]), ("[[i", "]]x[[/i]]", "em", &[]), ("[[u", "]]x[[/u]]", "u", &[]), ("[[s", "]]x[[/s]]", "s", &[]),
    ("[[sub", "]]x[[/sub]]", "sub", &[]), ("[[sup", "]]x[[/sup]]", "sup", &[]), ("[[tt", "]]x[[/tt]]", "code", &[("class", "wj-monospace")]), ("[[mark", "]]x[[/mark]]", "mark", &[]), ("[[ins", "]]x[[/ins]]", "ins", &[]), ("[[del", "]]x[[/del]]", "del", &[]),
    ("[[hidden", "]]x[[/hidden]]", "span", &[("class", "wj-hidden")]), ("[[invisible", "]]x[[/invisible]]", "span", &[("class", "wj-invisible")]), ("[[blockquote", "]]\nx\n[[/blockquote]]", "blockquote", &[]),
    ("[[ul", "]][[li]]x[[/li]][[/ul]]", "ul", &[]), ("[[ol", "]][[li]]x[[/li]][[/ol]]", "ol", &[]), ("[[ul]][[li", "]]x[[/li]][[/ul]]", "li", &[]),
    ("[[table", "]][[row]][[cell]]x[[/cell]][[/row]][[/table]]", "table", &[]), ("[[table]][[row", "]][[cell]]x[[/cell]][[/row]][[/table]]", "tr", &[]), ("[[table]][[row]][[cell", "]]x[[/cell]][[/row]][[/table]]", "td", &[]), ("[[table]][[row]][[hcell", "]]x[[/hcell]][[/row]][[/table]]", "th", &[]),
    ("[[a", "]]x[[/a]]", "a", &[("class", "wj-anchor")]), ("[[*checkbox", "]]", "input", &[("type", "checkbox"), ("checked", "")]), ("[[radio grp", "]]", "input", &[("type", "radio"), ("name", "grp")]),
    ("[[iframe https://e.com", "]]", "iframe", &[("src", "https://e.com"), ("crossorigin", "")]), ("[[image https://e.com/x.png", "]]", "img", &[("class", "wj-image"), ("src", "https://e.com/x.png"), ("crossorigin", "")]),
    ("[[collapsible", "]]\nx\n[[/collapsible]]", "details", &[("class", "wj-collapsible"), ("data-show-top", "")]), ("[[ruby", "]]x[[rt]]y[[/rt]][[/ruby]]", "ruby", &[]), ("[[ruby]]x[[rt", "]]y[[/rt]][[/ruby]]", "rt", &[]), ("[[p", "]]x[[/p]]", "p", &[]),
];
fn attributes_of(r: &mut Rng, prefer: Option<&str>) -> (String, Value) {
    let (o, c, tag, own) = *r.pick(HOSTS);
    let mut args = arguments(r, prefer);
    args.retain(|(k, _)| { let l = k.to_ascii_lowercase(); l == "class" || (!own.iter().any(|(o, _)| *o == l) && !(tag == "a" && (l == "target" || l == "href")) && !(tag == "img" && l == "link") && !(tag == "details" && ["show", "hide", "folded", "hidelocation", "open"].contains(&l.as_str())) && !(tag == "a" && l == "name") && !((tag == "td" || tag == "th") && l == "colspan")) });
    let iso = r.chance(1, 2);
    let mut s = o.to_string();
    for (k, v) in &args { let (a, b) = *r.pick(&[("", ""), ("", ""), (" ", " "), ("", " ")]); s.push_str(&format!(" {k}{a}={b}{}", quoted(v))); }
    s.push_str(c);
    let s = format!("{}{s}{}", *r.pick(&["", "w ", "a\n\n"]), *r.pick(&["", " z", "\n"]));
    let mut want = expected(&args, iso);
    for (k, v) in own { if *k == "class" { let e = want.entry("class".into()).or_default(); *e = if e.is_empty() { v.to_string() } else { format!("{v} {e}") }; } else { want.insert(k.to_string(), v.to_string()); } }
    (s, json!({"mode": 0, "wj": true, "iso": iso, "tag": tag, "args": args, "want": want}))
}
fn attrs_gen(r: &mut Rng) -> (String, Value) { attributes_of(r, None) }
fn ids_gen(r: &mut Rng) -> (String, Value) { attributes_of(r, Some("id")) }
fn classes(v: &str) -> Vec<String> { let mut v: Vec<String> = v.split(' ').filter(|s| !s.is_empty()).map(|s| s.into()).collect(); v.sort(); v }
fn attributes(text: &str, a: &Value) -> Outcome {
    if !settled(text) || !a["want"].is_object() { return Ok(false); }
    with(text, a, |d| {
        let nodes = d.nodes()?; let tag = a["tag"].as_str().unwrap();
        let mut found: Vec<BTreeMap<String, String>> = vec![];
        for n in &nodes { n.walk(&mut |n| if n.tag() == tag { found.push(n.attrs().iter().map(|(k, v)| (k.clone(), v.clone())).collect()); }); }
        if tag == "div" || tag == "span" { found.retain(|m| !m.is_empty() || found_only(&nodes, tag)); }
        let want: BTreeMap<String, String> = serde_json::from_value(a["want"].clone()).unwrap();
        let norm = |m: &BTreeMap<String, String>| -> BTreeMap<String, String> { m.iter().map(|(k, v)| (k.clone(), if k == "class" { classes(v).join(" ") } else { v.clone() })).collect() };
        if !found.iter().any(|f| norm(f) == norm(&want)) { return Err(format!("attributes of <{tag}> are {found:?}, expected {want:?}")); }
        // whatever the element, nothing outside the list gets in
        for f in &found { for k in f.keys() { if !safe(k) && !["crossorigin", "data-show-top", "open"].contains(&k.as_str()) { return Err(format!("<{tag}> has the attribute {k}")); } } }
        Ok(!want.is_empty())
    })
}
fn found_only(nodes: &[Node], tag: &str) -> bool { let mut n = 0; for x in nodes { x.walk(&mut |x| if x.tag() == tag { n += 1; }); } n <= 1 }
/// Building a map from arguments directly, with names no source can spell.
fn map_gen(r: &mut Rng) -> (String, Value) {
    let mut args = arguments(r, None);
    if r.chance(1, 2) { let k = format!("{}{}", *r.pick(&["aria-", "data-", "ARIA-", "dat\u{e1}-", "on", ""]), *r.pick(&["x y", "a\"b", "x\n", "\u{e9}", "a.b", "a:b", "a=b", "a>b", "", "ok", "-", "a/b", "\u{17f}tyle", "hre\u{17f}"])); args.push((k, "v".into())); }
    let mut seen: Vec<String> = vec![];
    args.retain(|(k, _)| { let l = k.to_ascii_lowercase(); let new = !seen.contains(&l); seen.push(l); new });
    (String::new(), json!({"args": args}))
}
fn map(_: &str, a: &Value) -> Outcome {
    let Ok(args) = serde_json::from_value::<Vec<(String, String)>>(a["args"].clone()) else { return Ok(false) };
    let m: HashMap<unicase::UniCase<&str>, Cow<str>> = args.iter().map(|(k, v)| (unicase::UniCase::ascii(k.as_str()), Cow::Borrowed(v.as_str()))).collect();
    let got: BTreeMap<String, String> = ftml::tree::AttributeMap::from_arguments(&m).get().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let want = expected(&args, false);
    if got != want { return Err(format!("map is {got:?}, expected {want:?}")); }
    for (k, v) in &args {
        let mut t = ftml::tree::AttributeMap::new();
        let k2: &'static str = Box::leak(k.clone().into_boxed_str());
        let ok = t.insert(k2, Cow::Owned(v.clone()));
        if ok != safe(k) || t.get().len() != ok as usize { return Err(format!("inserting {k:?} gives {ok}")); }
    }
    Ok(!want.is_empty())
}
pub fn c04() -> Vec<Sub> {
    vec![Sub { name: "attributes", weight: 4, gen: attrs_gen, run: attributes, fixed: attrs_fixed }, Sub { name: "map", weight: 1, gen: map_gen, run: map, fixed: none }, build::sub("constructed", 1)]
}
/// Every host with every safe name and every bad name once.
fn attrs_fixed() -> Vec<(String, Value)> {
    let mut v = vec![];
    for (o, c, tag, own) in HOSTS.iter().take(2) { for k in SAFE.split(' ').chain(BAD.split(' ')).chain(BOOLEANS.split(' ')) { for val in ["v", "true", "no"] {
        let args = vec![(k.to_string(), val.to_string())];
        let mut want = expected(&args, false); for (k, v) in *own { want.insert(k.to_string(), v.to_string()); }
        v.push((format!("{o} {k}={}{c}", quoted(val)), json!({"mode": 0, "iso": false, "tag": tag, "want": want})));
    } } }
    v
}
fn anchors_gen(r: &mut Rng) -> (String, Value) {
    let iso = r.chance(1, 2);
    let w = *r.pick(&["x", "u-x", "u-u-x", "Top", "toc0", "wj-toc", "a.b", "é", "u", "U-x", "u-"]);
    let src = match r.below(3) { 0 => format!("[[# {w}]]"), 1 => format!("[[target {w}]]"), _ => format!("[[AnchorTarget {w}]]") };
    let id = isolated(w, iso);
    let (o, c) = *r.pick(&[("", ""), ("**", "**"), ("[[div]]\n", "\n[[/div]]"), ("* ", ""), ("||", "||"), ("+ ", ""), ("[[span]]", "[[/span]]")]);
    (format!("{o}k {src}z{c}"), json!({"mode": r.below(5), "wj": true, "iso": iso, "id": id}))
}
fn anchors(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let Some(id) = a["id"].as_str() else { return Ok(false) };
        let mut got = vec![];
        for n in &d.nodes()? { n.walk(&mut |n| if n.tag() == "a" { if let Some(v) = n.attr("id") { got.push(v.to_string()); } }); }
        if got != [id] { return Err(format!("anchor ids are {got:?}, expected {id:?}")); }
        Ok(true)
    })
}
/// With isolation on, an id that is not generated by the renderer starts with u-.
fn isolation(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let mut any = false; let mut err = None;
        for n in &d.nodes()? { n.walk(&mut |n| if let Some(v) = n.attr("id") { for w in v.split(' ') {
            any = true;
            let generated = w.starts_with("wj-id-") || w == "wj-toc" || w == "wj-toc-action-bar" || w == "wj-toc-list" || w.starts_with("wj-bibliography-item-") || w.starts_with("bibitem-") || w.strip_prefix("toc").map(|k| k.parse::<usize>().is_ok() || n.tag().starts_with('h')).unwrap_or(false) || w.starts_with("equation-") ;
            if !w.starts_with("u-") && !generated && !w.is_empty() { err = Some(format!("id {w:?} of <{}> is not isolated", n.tag())); }
        } }); }
        match err { Some(e) => Err(e), None => Ok(any) }
    })
}
fn isolation_gen(r: &mut Rng) -> (String, Value) { (gen::document(r), json!({"mode": r.below(5), "wj": r.chance(1, 2), "iso": true})) }
pub fn c05() -> Vec<Sub> {
    vec![Sub { name: "ids", weight: 4, gen: ids_gen, run: attributes, fixed: none }, Sub { name: "anchors", weight: 2, gen: anchors_gen, run: anchors, fixed: none }, Sub { name: "documents", weight: 1, gen: isolation_gen, run: isolation, fixed: none }, build::sub("constructed", 1)]
}
