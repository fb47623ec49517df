//! Monitors for whole documents: invariants between the syntax tree, the
//! lists reported next to it and the renderings.
use crate::{case::*, env::{self, *}, gen, html::{self, Node}, refhtml::Ref, rng::Rng, tree};
use ftml::prelude::*;
use ftml::render::{debug::DebugRender, html::HtmlRender, null::NullRender, text::TextRender};
use ftml::tree::*;
use serde_json::{json, Value};
use std::borrow::Cow;

pub fn doc(r: &mut Rng) -> (String, Value) { (gen::document(r), env::any(r)) }
/// Page mode with all features.
pub fn page_doc(r: &mut Rng) -> (String, Value) { (gen::document(r), json!({"mode": 0, "wj": r.chance(1, 2)})) }

// ---- C01 -----------------------------------------------------------------

fn pipeline(text: &str, a: &Value) -> Outcome {
    let st = env::settings(a);
    let info = env::info(a);
    let (inc, _) = ftml::include(text, &st, ftml::includes::DebugIncluder, || panic!("bad includer")).map_err(|e| format!("include failed: {e:?}"))?;
    let mut t = inc;
    if !a["raw"].as_bool().unwrap_or(false) { ftml::preprocess(&mut t); }
    let tokens = ftml::tokenize(&t);
    let map = ftml::Utf16IndexMap::new(&t);
    let (tree, errors) = ftml::parse(&tokens, &info, &st).into();
    for e in &errors { e.to_utf16_indices(&map); }
    for st in [st.clone(), { let mut s = env::settings(&json!({"mode": a["mode"], "wj": !a["wj"].as_bool().unwrap_or(false)})); s.isolate_user_ids = false; s.use_true_ids = !s.use_true_ids; s }] {
        HtmlRender.render(&tree, &info, &st);
        TextRender.render(&tree, &info, &st);
        NullRender.render(&tree, &info, &st);
    }
    DebugRender.render(&tree, &info, &st);
    serde_json::to_string(&tree).map_err(|e| format!("cannot be serialised: {e}"))?;
    Ok(tree.elements.len() > 1 || !errors.is_empty())
}
fn pipe_gen(r: &mut Rng) -> (String, Value) {
    let mut a = env::any(r);
    if r.chance(1, 3) { a["raw"] = json!(true); }
    if r.chance(1, 6) { a["category"] = json!("cat"); a["tags"] = json!([]); }
    let t = match r.below(6) {
        0 => { let mut s = String::new(); for _ in 0..r.below(12) { match r.below(3) { 0 => s.push(char::from_u32(r.below(0x250) as u32).unwrap_or('x')), 1 => s.push_str(*r.pick(gen::FRAGS)), _ => s.push(*r.pick(&['[', ']', '|', '"', '=', ' ', '\n', ':', '#', '*', '_', '-', '/', '\\', '$', '{', '}', '(', ')', '@', '<', '>', '~', '+', ',', '^', '!', '&'])) } } s }
        1 => mutate(gen::document(r), r),
        _ => gen::document(r),
    };
    (t, a)
}
fn mutate(s: String, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(4) {
        if c.is_empty() { break; }
        let i = r.below(c.len());
        match r.below(4) { 0 => { c.remove(i); } 1 => { let d = c[r.below(c.len())]; c.insert(i, d); } 2 => { let j = (i + r.below(8)).min(c.len()); c.drain(i..j); } _ => c[i] = *r.pick(&['[', ']', '"', '\\', '\n', ' ', '=', '|', 'é', '*', '\0', '\u{a0}']) }
    }
    c.into_iter().collect()
}
fn pipe_fixed() -> Vec<(String, Value)> {
    let mut v = vec![];
    let arg = ["", " ", "\"", "\"\"", "\"\\", "é", "=", "a=", "a=\"", "a=\"b\"", "0", "-1", "99999999999", "#", "*", "/", ":", "\n", "_", "+", "-", "%"];
    let blocks = ["a", "align", "anchor", "bibcite", "bibliography", "blockquote", "bold", "button", "cell", "char", "character", "checkbox", "code", "collapsible", "date", "del", "div", "embed", "eqref", "equation", "eref", "footnote", "footnoteblock", "hidden", "html", "hcell", "ifcategory", "iframe", "iftags", "image", "include", "include-elements", "include-messy", "invisible", "italics", "later", "li", "lines", "mark", "math", "module", "module rate", "module css", "module listusers", "monospace", "newlines", "ol", "p", "radio", "rb", "row", "rt", "ruby", "ruby2", "size", "span", "strikethrough", "sub", "sup", "tab", "table", "tabs", "tabview", "target", "text", "toc", "f>toc", "ul", "underline", "user", "=", "<", ">", "==", "f<image", "=image", "quote"];
    for b in blocks { for (i, x) in arg.iter().enumerate() {
        let m = json!({"mode": i % 5, "wj": i % 2 == 0});
        v.push((format!("[[{b} {x}]]"), m.clone())); v.push((format!("[[{b}{x}]]x[[/{b}]]"), m.clone())); v.push((format!("[[{b} {x}]]\ny\n[[/{b}]]\n"), m.clone()));
        if i < 3 { v.push((format!("[[*{b} {x}]]x[[/{b}]]"), m.clone())); v.push((format!("[[{b}_ {x}]]x[[/{b}_]]"), m.clone())); v.push((format!("[[{b} {x}"), m.clone())); v.push((format!("[[/{b}{x}"), m)); }
    } }
    for n in [50usize, 99, 100, 101, 150, 400] {
        for (o, c) in [("[[div]]\n", "\n[[/div]]"), ("[[span]]", "[[/span]]"), ("[[size 1]]", "[[/size]]"), ("[[collapsible]]\n", "[[/collapsible]]\n"), ("[[ul]][[li]]", "[[/li]][[/ul]]"), ("[[footnote]]", "[[/footnote]]"), ("[[table]][[row]][[cell]]", "[[/cell]][[/row]][[/table]]"), ("[[iftags +tale]]", "[[/iftags]]")] {
            v.push((format!("{}x{}", o.repeat(n), c.repeat(n)), json!({})));
        }
        v.push((format!("{} x", ">".repeat(n)), json!({}))); v.push((format!("{}* x", " ".repeat(n)), json!({}))); v.push((format!("{} x", "+".repeat(n)), json!({})));
        v.push(("||".repeat(n) + "x||", json!({}))); v.push(("[".repeat(n), json!({}))); v.push(("]".repeat(n), json!({}))); v.push(("\n".repeat(n) + "x", json!({"raw": true})));
        v.push(((0..n).map(|i| format!("\n{}* x", " ".repeat(i % 22))).collect(), json!({}))); v.push(((0..n).map(|i| format!("\n{} x", ">".repeat(1 + i % 32))).collect(), json!({})));
        v.push(((0..n).map(|i| format!("\n{} h", "+".repeat(1 + (i * 7) % 6))).collect(), json!({})));
    }
    v
}
pub fn c01() -> Vec<Sub> { vec![Sub { name: "pipeline", weight: 1, gen: pipe_gen, run: pipeline, fixed: pipe_fixed }] }

// ---- C09 -----------------------------------------------------------------

fn collected(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let t = d.tree;
        let (mut notes, mut toc, mut code, mut html, mut bibs, mut partial, mut blocks) = (0, 0, vec![], vec![], vec![], false, 0);
        tree::walk_document(t, &mut |e| match e {
            Element::Footnote => notes += 1,
            Element::Code { contents, .. } => code.push(contents.to_string()),
            Element::Html { contents } => html.push(contents.to_string()),
            Element::BibliographyBlock { index, .. } => bibs.push(*index),
            Element::FootnoteBlock { .. } => blocks += 1,
            Element::Partial(_) => partial = true,
            Element::Container(c) => if let ContainerType::Header(h) = c.ctype() { if h.has_toc { toc += 1 } },
            _ => {}
        });
        if partial { return Err("an unfinished element is part of the tree".into()); }
        // recorded finding: the value of a bibliography entry whose label is taken, and every key, is dropped after what
        // it collects was recorded, so that more may be reported than the tree has; a "strict" case is such a finding
        let more = t.bibliographies.next_index() > 0 && !a["strict"].as_bool().unwrap_or(false);
        fn agree<T: PartialEq>(got: &[T], want: &[T], more: bool) -> bool { if !more { return got == want; } let mut i = 0; for g in got { if i < want.len() && *g == want[i] { i += 1; } } i == want.len() }
        if blocks == 0 && !(more && text.to_lowercase().contains("footnoteblock")) { return Err("no footnote block at all".into()); }
        if notes != t.footnotes.len() && !(more && notes < t.footnotes.len()) { return Err(format!("{} footnotes are reported, the tree has {notes} markers", t.footnotes.len())); }
        let n = tree::count(&t.table_of_contents, &|e| matches!(e, Element::Link { .. }));
        if n != toc && !(more && toc < n) { return Err(format!("{n} table of contents entries are reported, the tree has {toc} such headings")); }
        let got: Vec<String> = t.code_blocks.iter().map(|c| c.contents.to_string()).collect();
        if !agree(&got, &code, more) { return Err(format!("code blocks {got:?} are reported, the tree has {code:?}")); }
        let got: Vec<String> = t.html_blocks.iter().map(|c| c.to_string()).collect();
        if !agree(&got, &html, more) { return Err(format!("HTML blocks {got:?} are reported, the tree has {html:?}")); }
        if more { bibs.sort(); }
        if !agree(&(0..t.bibliographies.next_index()).collect::<Vec<_>>(), &bibs, more) { return Err(format!("{} bibliographies are reported, the tree has blocks {bibs:?}", t.bibliographies.next_index())); }
        Ok(notes + toc + code.len() + html.len() + bibs.len() > 0)
    })
}
/// Documents in which items to collect sit inside of markup that may fail.
const ITEMS: &[&str] = &["[[footnote]]f{n}[[/footnote]]", "\n+ head{n}\n", "\n++ h{n}\n+++* s{n}\n++ t{n}\n", "[[code]]\nc{n}\n[[/code]]", "[[code name=\"n{n}\"]]x[[/code]]", "[[html]]h{n}[[/html]]", "[[footnoteblock]]", "\n[[bibliography]]\n: l{n} : e{n}\n[[/bibliography]]\n", "word{n}", "((bibcite l0))", "[[toc]]"];
const HALVES: &[(&str, &str)] = &[("[[div]]\n", "\n[[/div]]"), ("[[span]]", "[[/span]]"), ("**", "**"), ("//", "//"), ("__", "__"), ("^^", "^^"), (",,", ",,"), ("--", "--"), ("{{", "}}"), ("##red|", "##"), ("[[a href=\"x\"]]", "[[/a]]"), ("[[footnote]]", "[[/footnote]]"), ("[[iftags +zzz]]", "[[/iftags]]"), ("[[iftags +tale]]", "[[/iftags]]"), ("[[ifcategory x]]\n", "\n[[/ifcategory]]"), ("[[collapsible]]\n", "\n[[/collapsible]]"), ("[[tabview]][[tab x]]", "[[/tab]][[/tabview]]"), ("[[table]][[row]][[cell]]", "[[/cell]][[/row]][[/table]]"), ("[[ul]][[li]]", "[[/li]][[/ul]]"), ("\n||", "||\n"), ("\n||~ a||", "||\n||b||\n"), ("\n> ", "\n"), ("\n* ", "\n * x\n"), ("\n: ", " : v\n"), ("\n: k : ", "\n"), ("\n+ ", "\n"), ("[[[p|", "]]]"), ("[https://e.com ", "]"), ("[!--", "--]"), ("@@", "@@"), ("[[ruby]]", "[[rt]]x[[/rt]][[/ruby]]"), ("[[size 1]]", "[[/size]]"), ("[[bibliography]]\n: q : ", "\n[[/bibliography]]"), ("[[=]]\n", "\n[[/=]]"), ("[[later]]", "[[/later]]"), ("[[module css]]", "[[/module]]"), ("[[li]]", "[[/li]]"), ("[[tab x]]", "[[/tab]]"), ("[[cell]]", "[[/cell]]"), ("[[rt]]", "[[/rt]]"), ("[[row]]", "[[/row]]")];
fn halves(r: &mut Rng, depth: usize, bib: bool, n: &mut usize, out: &mut String) {
    for _ in 0..1 + r.below(3) {
        if depth > 0 && r.chance(1, 2) {
            let (o, c) = *r.pick(HALVES);
            if !bib && o.contains("bibliography") { continue; }
            if r.chance(7, 8) { out.push_str(o); }
            halves(r, depth - 1, bib, n, out);
            if r.chance(2, 3) { out.push_str(c); }
        } else { let i = *r.pick(ITEMS); if bib || !i.contains("bibliography") { out.push_str(&i.replace("{n}", &n.to_string())); *n += 1; } }
        if r.chance(1, 4) { out.push(*r.pick(&['\n', ' '])); }
    }
}
fn halves_gen(r: &mut Rng) -> (String, Value) { let mut s = String::new(); let bib = r.chance(1, 8); halves(r, 3, bib, &mut 0, &mut s); (s, json!({"mode": 0, "wj": r.chance(1, 2)})) }
fn halves_fixed() -> Vec<(String, Value)> {
    let mut v = vec![];
    for (o, c) in HALVES { for i in ITEMS { if o.contains("bibliography") { continue; }
        let i = i.replace("{n}", "1");
        for s in [format!("{o}{i}"), format!("{o}{i}{c}"), format!("a{o}{i}\n\nb{c}"), format!("{o}{o}{i}{c}"), format!("{i}{o}{i}{c}{i}{o}{i}").replacen("n1", "n2", 1)] { v.push((s, json!({}))); }
    } }
    v
}
pub fn c09() -> Vec<Sub> {
    vec![Sub { name: "collected", weight: 3, gen: halves_gen, run: collected, fixed: halves_fixed },
         Sub { name: "collected-any", weight: 1, gen: page_doc, run: collected, fixed: none }]
}

// ---- C19 -----------------------------------------------------------------

fn copies(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| same_copies(d.tree, &d))
}
fn same_copies(t: &SyntaxTree, d: &Doc) -> Outcome {
    let own = t.to_owned();
    if own != *t { return Err(format!("the detached copy differs: {} / {}", clip(&format!("{own:?}")), clip(&format!("{t:?}")))); }
    let j = serde_json::to_string(t).map_err(|e| format!("cannot be serialised: {e}"))?;
    let back: SyntaxTree = serde_json::from_str(&j).map_err(|e| format!("cannot be read back: {e} in {}", clip(&j)))?;
    if back != *t { return Err(format!("reading back {} gives {}", clip(&j), clip(&format!("{back:?}")))); }
    if serde_json::to_string(&own).map_err(|e| e.to_string())? != j && !j.contains("\"variables\"") { return Err("the detached copy is serialised differently".into()); }
    let first = html::canonical(&d.nodes()?);
    for (n, c) in [("detached", &own), ("re-read", &back)] {
        let h = HtmlRender.render(c, d.info, d.st);
        if html::canonical(&html::parse(&h.body)?) != first { return Err(format!("the {n} copy renders differently")); }
        if h.backlinks != d.html().backlinks { return Err(format!("the {n} copy has different backlinks")); }
        if TextRender.render(c, d.info, d.st) != d.plain() { return Err(format!("the {n} copy renders differently as text")); }
    }
    let e = serde_json::to_value(d.errors).map_err(|e| e.to_string())?;
    let back: Vec<ftml::parsing::ParseError> = serde_json::from_value(e).map_err(|e| format!("warnings cannot be read back: {e}"))?;
    if back != d.errors { return Err("warnings change when serialised".into()); }
    Ok(t.elements.len() > 1)
}
pub fn c19() -> Vec<Sub> {
    vec![Sub { name: "copies", weight: 4, gen: doc, run: copies, fixed: crate::props::build::everything },
         Sub { name: "copies-collected", weight: 1, gen: halves_gen, run: copies, fixed: none }]
}

// ---- C24 -----------------------------------------------------------------

fn ids(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let nodes = d.nodes()?;
        let tocs = { let mut n = 0; tree::walk_document(d.tree, &mut |e| if matches!(e, Element::TableOfContents { .. }) { n += 1 }); n };
        let notes_head = d.tree.footnotes.iter().any(|f| tree::count(f, &|e| matches!(e, Element::TableOfContents { .. } | Element::TabView(_) | Element::BibliographyBlock { .. }) || matches!(e, Element::Container(c) if matches!(c.ctype(), ContainerType::Header(_)))) > 0);
        let bib_head = (0..d.tree.bibliographies.next_index()).any(|i| d.tree.bibliographies.get_bibliography(i).slice().iter().any(|(_, f)| tree::count(f, &|e| matches!(e, Element::TableOfContents { .. } | Element::TabView(_) | Element::BibliographyBlock { .. }) || matches!(e, Element::Container(c) if matches!(c.ctype(), ContainerType::Header(_)))) > 0));
        let mut by: std::collections::HashMap<String, Vec<&Node>> = Default::default();
        let mut user = vec![];
        // several attributes of a user element can clash with a generated id's element; those are joined
        for n in &nodes { n.walk(&mut |n| if let Some(id) = n.attr("id") { for w in id.split(' ') { if w.starts_with("u-") { user.push(w.to_string()) } else { by.entry(w.to_string()).or_default().push(n) } } }); }
        for (id, e) in &by {
            if e.len() > 1 && (a["strict"].as_bool().unwrap_or(false) || !(id.starts_with("wj-toc") && tocs > 1) && !((notes_head || bib_head) && (id.starts_with("toc") || id.starts_with("wj-toc") || id.starts_with("wj-bibliography-item") || id.starts_with("bibitem")))) { return Err(format!("id {id:?} is given to {} elements", e.len())); }
        }
        let mut err = None;
        let resolve = |id: &str, ok: &dyn Fn(&Node) -> bool| by.get(id).map(|e| e.len() == 1 && ok(e[0])).unwrap_or(false);
        let mut subject = false;
        for n in &nodes { n.walk(&mut |n| {
            if n.tag() == "wj-tabs" {
                subject = true;
                let (b, p): (&[Node], &[Node]) = (n.kids()[0].kids(), n.kids()[1].kids());
                if b.len() != p.len() { err = Some(format!("{} tab buttons for {} panels", b.len(), p.len())); }
                for (i, (b, p)) in b.iter().zip(p).enumerate() {
                    if b.attr("aria-controls") != p.attr("id") || p.attr("aria-labelledby") != b.attr("id") || p.attr("id").is_none() || b.attr("id").is_none() { err = Some(format!("tab button {i} does not belong to panel {i}")); }
                    if (b.attr("aria-selected") == Some("true")) != (i == 0) || p.attr("hidden").is_some() == (i == 0) { err = Some("not exactly the first tab is selected and shown".into()); }
                }
            }
            if n.tag() == "a" && n.attr("data-link-type") == Some("table-of-contents") && d.st.use_true_ids {
                subject = true;
                let h = n.attr("href").unwrap_or("");
                if !notes_head && !bib_head && !resolve(h.strip_prefix('#').unwrap_or("?"), &|e| e.tag().len() == 2 && e.tag().starts_with('h')) { err = Some(format!("table of contents entry {h} leads nowhere")); }
            }
            for k in ["aria-controls", "aria-labelledby"] { if let Some(v) = n.attr(k) { if (n.tag() == "wj-tabs-button" || n.has_class("wj-tabs-panel")) && !by.contains_key(v) { err = Some(format!("{k}={v} refers to nothing")); } } }
        }); }
        match err { Some(e) => Err(e), None => Ok(subject || by.len() > 1) }
    })
}
fn ids_gen(r: &mut Rng) -> (String, Value) {
    if r.chance(1, 3) { let (t, mut a) = page_doc(r); a["iso"] = json!(true); return (t, a); }
    let mut s = String::new();
    for i in 0..1 + r.below(5) {
        match r.below(7) {
            0 => { s.push_str("[[tabview]]\n"); for k in 0..1 + r.below(4) { s.push_str(&format!("[[tab T{k}]]\n")); if r.chance(1, 4) { s.push_str("[[tabview]]\n[[tab i]]\nx\n[[/tab]]\n[[tab j]]\ny\n[[/tab]]\n[[/tabview]]\n"); } if r.chance(1, 4) { s.push_str("\n+ In tab\n"); } s.push_str("body\n[[/tab]]\n"); } s.push_str("[[/tabview]]\n"); }
            1 => s.push_str(&format!("{} Head {i}\n", "+".repeat(1 + r.below(6)))),
            2 => s.push_str("[[toc]]\n"),
            3 => s.push_str(&format!("x[[footnote]]n{i}[[/footnote]]\n")),
            4 => s.push_str(&format!("[[bibliography]]\n: b{i} : e\n: c{i} : f\n[[/bibliography]]\n((bibcite b{i}))\n")),
            5 => s.push_str("[[div id=\"toc0\"]]\nx\n[[/div]]\n[[# wj-id-1]]\n[[span id=\"toc1 wj-toc\"]]y[[/span]]\n"),
            _ => s.push_str("[[collapsible]]\n+ Inside\n[[/collapsible]]\n"),
        }
        if r.chance(1, 2) { s.push('\n'); }
    }
    (s, json!({"mode": *r.pick(&[0usize, 0, 0, 1, 2, 3, 4]), "wj": r.chance(1, 2), "iso": true, "ids": r.chance(3, 4)}))
}
pub fn c24() -> Vec<Sub> { vec![Sub { name: "ids", weight: 1, gen: ids_gen, run: ids, fixed: none }] }

// ---- C21 -----------------------------------------------------------------

fn backlinks(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let h = d.html();
        let mut r = Ref::new(d.tree, d.info, d.st);
        r.document();
        if h.backlinks.internal_links != r.internal { return Err(format!("internal links are {:?}, expected {:?}", h.backlinks.internal_links, r.internal)); }
        let ext: Vec<String> = h.backlinks.external_links.iter().map(|s| s.to_string()).collect();
        if ext != r.external { return Err(format!("external links are {ext:?}, expected {:?}", r.external)); }
        Ok(r.internal.len() + r.external.len() > 0)
    })
}
/// Links of known kind, in random surroundings: (text, internal, external).
fn known_links(r: &mut Rng) -> (String, Value) {
    let (mut s, mut int, mut ext) = (String::new(), vec![], vec![]);
    for i in 0..1 + r.below(6) {
        let (o, c) = *r.pick(&[("", ""), ("**", "**"), ("[[div]]\n", "\n[[/div]]"), ("[[collapsible]]\n", "\n[[/collapsible]]"), ("\n* ", "\n"), ("\n> ", "\n"), ("||", "||\n"), ("\n+ ", "\n"), ("[[span]]", "[[/span]]"), ("[[iftags +nope]]", "[[/iftags]]"), ("[!--", "--]"), ("@@", "@@")]);
        let hidden = matches!(o, "[[iftags +nope]]" | "[!--" | "@@");
        let x = match r.below(13) {
            0 => (format!("[[[page{i}]]]"), Some(json!([null, format!("page{i}")])), None),
            1 => (format!("[[[cat:page{i}|lab]]]"), Some(json!([null, format!("cat:page{i}")])), None),
            2 => (format!("[[[:site:page{i}|lab]]]"), Some(json!(["site", format!("page{i}")])), None),
            3 => (format!("[[[page{i}#frag|lab]]]"), Some(json!([null, format!("page{i}")])), None),
            4 => (format!("[[[*page{i}/edit|]]]"), Some(json!([null, format!("page{i}")])), None),
            5 => (format!("[https://e.com/{i} lab]"), None, Some(format!("https://e.com/{i}"))),
            6 => (format!("[[[https://f.com/{i}|lab]]]"), None, Some(format!("https://f.com/{i}"))),
            7 => (format!(" https://g.com/{i} "), None, Some(format!("https://g.com/{i}"))),
            8 => (format!("[/local{i} lab]"), Some(json!([null, format!("local{i}")])), None),
            9 => ("[#top lab]".into(), None, None),
            10 => ("[# lab]".into(), None, None),
            11 => (format!("[*http://h.com/{i}?a=b#c lab]"), None, Some(format!("http://h.com/{i}?a=b#c"))),
            _ => (format!("[[[!wikipedia:Art{i}|lab]]]"), None, Some(format!("https://wikipedia.org/wiki/Art{i}"))),
        };
        s.push_str(o); s.push_str(&x.0); s.push_str(c); s.push_str(*r.pick(&["", "\n", "\n\n", " "]));
        if !hidden { if let Some(p) = x.1 { int.push(p); } if let Some(u) = x.2 { ext.push(u); } }
    }
    if r.chance(1, 3) { s.push_str("\n[[toc]]\n"); }
    (s, json!({"mode": 0, "wj": r.chance(1, 2), "internal": int, "external": ext}))
}
fn known(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let b = d.html().backlinks;
        let int: Vec<Value> = b.internal_links.iter().map(|p| json!([p.site, p.page])).collect();
        let ext: Vec<Value> = b.external_links.iter().map(|p| json!(p)).collect();
        let (wi, we) = (a["internal"].as_array().unwrap(), a["external"].as_array().unwrap());
        if int != *wi || ext != *we { return Err(format!("internal {int:?} external {ext:?}, expected {wi:?} and {we:?}")); }
        Ok(wi.len() + we.len() > 0)
    })
}
pub fn c21() -> Vec<Sub> {
    vec![Sub { name: "known-links", weight: 1, gen: known_links, run: known, fixed: none },
         Sub { name: "backlinks", weight: 1, gen: page_doc, run: backlinks, fixed: none }]
}

// ---- C27 -----------------------------------------------------------------

struct Plain<'a, 't> { d: &'a Doc<'a>, out: String, hide: usize, scopes: Vec<&'a VariableMap<'t>> }
impl<'a, 't> Plain<'a, 't> {
    fn put(&mut self, s: &str) { if self.hide > 0 { for _ in s.chars() { self.out.push(' '); } } else { self.out.push_str(s); } }
    fn nl(&mut self) { self.out.push('\n'); }
    fn fresh(&mut self) { if !self.out.ends_with('\n') { self.nl(); } }
    fn all(&mut self, es: &'a [Element<'t>]) { for e in es { self.one(e); } }
    fn one(&mut self, e: &'a Element<'t>) {
        use Element as E;
        match e {
            E::Text(t) | E::Raw(t) | E::Email(t) => self.put(t),
            E::User { name, .. } => self.put(name),
            E::Variable(n) => { let v = self.scopes.iter().rev().find_map(|s| s.get(n)).map(|v| v.to_string()).unwrap_or_else(|| format!("{{${n}}}")); self.put(&v) }
            E::Include { variables, elements, .. } => { self.scopes.push(variables); self.all(elements); self.scopes.pop(); }
            E::EquationReference(n) => self.put(&format!("[{n}]")),
            E::Link { link, label, .. } => { let l = Ref::new(self.d.tree, self.d.info, self.d.st).label(link, label); self.put(&l) }
            E::Code { contents, .. } => { self.nl(); self.put(contents); self.nl() }
            E::LineBreak => self.nl(),
            E::LineBreaks(n) => for _ in 0..n.get() { self.nl() },
            E::Anchor { elements, .. } | E::Color { elements, .. } | E::Collapsible { elements, .. } => self.all(elements),
            E::TabView(t) => for t in t { self.put(&t.label); self.nl(); self.all(&t.elements); self.nl(); },
            E::Table(t) => { self.fresh(); for r in &t.rows { for c in &r.cells { self.all(&c.elements); } self.nl(); } self.nl(); }
            E::List { items, .. } => { self.fresh(); for i in items { match i { ListItem::SubList { element } => self.one(element), ListItem::Elements { elements, .. } => if !elements.is_empty() { self.all(elements); self.nl(); } } } }
            E::DefinitionList(d) => { for d in d { self.all(&d.key_elements); self.put(" "); self.all(&d.value_elements); self.nl(); } self.nl(); }
            E::Container(c) => {
                use ContainerType as C;
                match c.ctype() {
                    C::Hidden => {}
                    C::Invisible => { self.hide += 1; self.all(c.elements()); self.hide -= 1; }
                    C::Div | C::Paragraph | C::Blockquote | C::Header(_) => { self.nl(); self.all(c.elements()); self.nl(); }
                    C::RubyText => { self.put("("); self.all(c.elements()); self.put(")"); }
                    _ => self.all(c.elements()),
                }
            }
            E::Date { .. } => self.put("\u{1}"),
            _ => {}
        }
    }
}
fn plain(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let got = d.plain();
        let mut dates = false;
        tree::walk_document(d.tree, &mut |e| if matches!(e, Element::Date { .. }) { dates = true });
        if dates { return Ok(false); }
        let mut p = Plain { d: &d, out: String::new(), hide: 0, scopes: vec![] };
        p.all(&d.tree.elements);
        let want = p.out.trim_matches('\n');
        if got != want { return Err(format!("text rendering is {got:?}, expected {want:?}")); }
        Ok(d.tree.elements.len() > 1)
    })
}
pub fn c27() -> Vec<Sub> { vec![Sub { name: "plain-text", weight: 3, gen: doc, run: plain, fixed: crate::props::build::everything }, Sub { name: "plain-known", weight: 2, gen: crate::props::build::gen, run: crate::props::build::plain, fixed: none }] }

// ---- C22 -----------------------------------------------------------------

/// Inclusions nested as a tree of scopes, with the values that have to be shown.
fn scopes(text: &str, a: &Value) -> Outcome {
    let mut seed = a["seed"].as_u64().unwrap_or(0);
    let mut next = |n: u64| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) % n };
    fn build(next: &mut dyn FnMut(u64) -> u64, depth: u64, env: &Vec<(String, String)>, want: &mut String, count: &mut usize) -> Vec<Element<'static>> {
        let mut v = vec![];
        for _ in 0..1 + next(4) {
            let k = next(10);
            if k < 4 {
                let name = ["a", "b", "c", "A", ""][next(5) as usize];
                v.push(Element::Variable(Cow::Borrowed(name)));
                *count += 1;
                match env.iter().rev().find(|e| e.0 == name) { Some(e) => want.push_str(&e.1), None => { want.push_str("{$"); want.push_str(name); want.push('}'); } }
                v.push(Element::Text(Cow::Borrowed(";"))); want.push(';');
            } else if k < 8 && depth > 0 {
                let mut vars = VariableMap::new();
                let mut inner = env.clone();
                for _ in 0..next(3) {
                    let name = ["a", "b", "c", "A", ""][next(5) as usize];
                    let value = match next(6) { 0 => String::new(), 1 => "<v>".into(), 2 => "{$a}".into(), n => format!("v{n}{}", next(100)) };
                    if vars.insert(Cow::Borrowed(name), Cow::Owned(value.clone())).is_some() { inner.retain(|e| !(e.0 == name && e.1 != value) || false); }
                    inner.push((name.into(), value));
                }
                // a name given twice in one scope keeps its last value
                let es = build(next, depth - 1, &inner, want, count);
                v.push(Element::Include { paragraph_safe: true, variables: vars, location: ftml::data::PageRef::page_only("p"), elements: es });
            } else if k == 8 && depth > 0 {
                let es = build(next, depth - 1, env, want, count);
                v.push(Element::Container(Container::new(ContainerType::Bold, es, AttributeMap::new())));
            } else if depth > 0 {
                let es = build(next, depth - 1, env, want, count);
                v.push(Element::Color { color: Cow::Borrowed("red"), elements: es });
            } else { v.push(Element::Text(Cow::Borrowed("x"))); want.push('x'); }
        }
        v
    }
    let (mut want, mut count) = (String::new(), 0);
    let elements = build(&mut next, 4, &vec![], &mut want, &mut count);
    let tree = SyntaxTree { elements, ..Default::default() };
    let (info, st) = (env::info(a), env::settings(a));
    let _ = text;
    let h = HtmlRender.render(&tree, &info, &st).body;
    let got = html::parse(&h)?.iter().map(|n| n.text()).collect::<String>();
    if got != want { return Err(format!("variables in {} render as {got:?}, expected {want:?}", clip(&format!("{:?}", tree.elements)))); }
    let got = TextRender.render(&tree, &info, &st);
    if got != want { return Err(format!("variables in {} render as text {got:?}, expected {want:?}", clip(&format!("{:?}", tree.elements)))); }
    Ok(count > 0)
}
fn scope_gen(r: &mut Rng) -> (String, Value) { (String::new(), json!({"seed": r.below(1 << 31)})) }
pub fn c22() -> Vec<Sub> { vec![Sub { name: "scopes", weight: 1, gen: scope_gen, run: scopes, fixed: none }] }
