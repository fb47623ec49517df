//! Monitors for footnotes, tables of contents, bibliographies, nesting, plain
//! text, conditions, arguments, modes, literal markup, names, interwiki links
//! and paragraphs. Expectations are constructed, not taken from the parser.
use super::build::{self, anycase, esc, G, Piece};
use super::doc::page_doc;
use crate::{case::*, env::{self, *}, gen, html::{self, Node}, rng::Rng, tree};
use ftml::prelude::*;
use ftml::tree::*;
use serde_json::{json, Value};
use std::borrow::Cow;

fn p(src: impl Into<String>, html: impl Into<String>) -> Piece { Piece::new(src, html, "") }
fn join(v: Vec<Piece>) -> Piece { let mut o = Piece::default(); for x in v { o.src.push_str(&x.src); o.html.push_str(&x.html); o.plain.push_str(&x.plain); } o }
fn expect(src: String, html: String, wj: bool) -> (String, Value) { (src, json!({"mode": 0, "wj": wj, "expect": html})) }

/// One paragraph in some surroundings which keep what is in it.
fn context(r: &mut Rng, line: Piece, depth: usize) -> Piece {
    let para = p(format!("{}\n", line.src), format!("<p>{}</p>", line.html));
    let nest = |r: &mut Rng, l: Piece| if depth == 0 { p(format!("{}\n", l.src), format!("<p>{}</p>", l.html)) } else { context(r, l, depth - 1) };
    match r.below(10) {
        0 => { let b = nest(r, line); p(format!("[[div]]\n{}[[/div]]\n", b.src), format!("<div>{}</div>", b.html)) }
        1 => { let b = nest(r, line); p(format!("[[=]]\n{}[[/=]]\n", b.src), format!("<div class=\"wj-align-center\">{}</div>", b.html)) }
        2 => { let b = nest(r, line); p(format!("[[blockquote]]\n{}[[/blockquote]]\n", b.src), format!("<blockquote>{}</blockquote>", b.html)) }
        3 => p(format!("* {}\n", line.src), format!("<ul><li>{}</li></ul>", line.html)),
        4 => p(format!("> {}\n", line.src), format!("<blockquote><p>{}</p></blockquote>", line.html)),
        5 => p(format!("||{}||\n", line.src), format!("<table class=\"wj-table\"><tbody><tr><td>{}</td></tr></tbody></table>", line.html)),
        6 => p(format!("[[ul]][[li]]{}[[/li]][[/ul]]\n", line.src), format!("<ul><li>{}</li></ul>", line.html)),
        7 => p(format!("**{}**\n", line.src), format!("<p><strong>{}</strong></p>", line.html)),
        8 => p(format!("[[span class=\"k\"]]{}[[/span]]\n", line.src), format!("<p><span class=\"k\">{}</span></p>", line.html)),
        _ => para,
    }
}
fn sep(out: &mut Piece, b: Piece) { out.src.push_str("\n[[div]]\n[[/div]]\n"); out.html.push_str("<div></div>"); out.src.push_str(&b.src); out.html.push_str(&b.html); }

// ---- C06 -----------------------------------------------------------------

fn marker(n: usize, body: &str) -> String { format!("<span class=\"wj-footnote-ref\"><wj-footnote-ref-marker class=\"wj-footnote-ref-marker\" role=\"link\" aria-label=\"Footnote {n}.\" data-id=\"{n}\">{n}</wj-footnote-ref-marker><span class=\"wj-footnote-ref-tooltip\" aria-hidden=\"true\"><span class=\"wj-footnote-ref-tooltip-label\">Footnote {n}.</span><span class=\"wj-footnote-ref-contents\">{body}</span></span></span>") }
fn notes_gen(r: &mut Rng) -> (String, Value) {
    let mut notes: Vec<String> = vec![]; let mut out = Piece::default(); let mut k = 0; let mut blocks = 0; let mut bibs = 0;
    for _ in 0..1 + r.below(5) {
        match r.below(9) {
            8 => { // notes of a bibliography count where the entry is, not where it is cited
                k += 1; bibs += 1; let l = format!("bib{k}");
                let body = format!("n{k}");
                let c = p(format!("w{k} ((bibcite {l})) v\n"), format!("<p>w{k} {} v</p>", cite(1, &format!("e{k}  z"), false)));
                if r.chance(1, 2) { sep(&mut out, c.clone()); }
                notes.push(body.clone());
                sep(&mut out, p(format!("[[bibliography]]\n: {l} : e{k} [[footnote]]{body}[[/footnote]] z\n[[/bibliography]]\n"), format!("<div class=\"wj-bibliography bibitems\"><div class=\"wj-bibliography-title title\">Bibliography</div><div class=\"wj-bibliography-item bibitem\" id=\"wj-bibliography-item-{bibs}-1 bibitem-{bibs}-1\"><wj-bibliography-item-marker class=\"wj-bibliography-item-marker\" type=\"button\" role=\"link\">1<span class=\"wj-bibliography-sep\">.</span></wj-bibliography-item-marker>e{k} {} z</div></div>", marker(notes.len(), &body))));
                if r.chance(1, 2) { sep(&mut out, c); }
            }
            0 => { // a list of footnotes
                let (s, t) = *r.pick(&[("", Some("Footnotes")), (" title=\"A & <b>\"", Some("A & <b>")), (" title=\"\"", Some("")), (" hide=\"true\"", None), (" HIDE=\"Yes\" title=\"x\"", None), (" hide=\"no\" title=\"y\"", Some("y")), (" Title=\"z\"", Some("z"))]);
                blocks += 1;
                let n = anycase(r, "footnoteblock");
                sep(&mut out, p(format!("[[{n}{s}]]\n"), match t { Some(t) => format!("\u{1}{t}\u{2}"), None => String::new() }));
            }
            1 => { let o = *r.pick(&[("[[iftags -tale]]", "[[/iftags]]"), ("[[ifcategory nope]]", "[[/ifcategory]]"), ("[!-- ", " --]")]); k += 1; sep(&mut out, p(format!("q{k} {}gone {}[[footnote]]never{k}[[/footnote]] x{} r\n", o.0, if r.chance(1, 2) { "[[footnoteblock]] " } else { "" }, o.1), format!("<p>q{k}  r</p>"))); }
            2 => { // not complete: text
                k += 1; sep(&mut out, p(format!("q{k} [[/footnote]] r\n"), format!("<p>q{k} [[/footnote]] r</p>")));
            }
            _ => {
                let mut line = p(format!("a{k}"), format!("a{k}"));
                for _ in 0..1 + r.below(3) {
                    k += 1;
                    let (src, body, after) = match r.below(9) {
                        0 => (format!("[[footnote]]n{k} **b** //i//[[/footnote]]"), format!("n{k} <strong>b</strong> <em>i</em>"), String::new()),
                        1 => (format!("[[footnote]]\nn{k}\n\nm{k}[[/footnote]]"), format!("<p>n{k}</p><p>m{k}</p>"), String::new()),
                        2 => (format!("[[footnote]]n{k} [[footnote]]o{k}[[/footnote]] z[[/footnote]]"), format!("n{k} [[footnote]]o{k}"), " z[[/footnote]]".into()),
                        3 => (format!("[[footnote]]n{k} [[footnoteblock]] y[[/footnote]]"), format!("n{k} [[footnoteblock]] y"), String::new()),
                        4 => (format!("[[footnote]]n{k} @@<x> [[b]]@@ y[[/footnote]]"), format!("n{k} <span class=\"wj-raw\">&lt;x&gt; [[b]]</span> y"), String::new()),
                        5 => (format!("[[FootNote]]n{k} [[span class=\"c\"]]s[[/span]][[/footnote]]"), format!("n{k} <span class=\"c\">s</span>"), String::new()),
                        6 => (format!("[[footnote]]n{k} ((bibcite zz)) [[iftags +tale]]in[[/iftags]][[/FOOTNOTE]]"), format!("n{k} <span class=\"wj-error-inline\">Bibliography item not found</span> in"), String::new()),
                        _ => (format!("[[footnote]]n{k} & <x>[[/footnote]]"), format!("n{k} &amp; &lt;x&gt;"), String::new()),
                    };
                    if src.contains("\n") && false { continue; }
                    notes.push(body.clone());
                    line = join(vec![line, p(format!(" {src}"), format!(" {}{}", marker(notes.len(), &body), esc(&after))), p(format!(" t{k}"), format!(" t{k}"))]);
                }
                let b = if line.src.contains('\n') { p(format!("{}\n", line.src), format!("<p>{}</p>", line.html)) } else { context(r, line, 1) };
                sep(&mut out, b);
            }
        }
    }
    let mut h = out.html;
    while let (Some(i), Some(j)) = (h.find('\u{1}'), h.find('\u{2}')) { let t = h[i + 1..j].to_string(); h.replace_range(i..j + 2 - 1, &build::footnotes(&notes, &t)); }
    if blocks == 0 { h.push_str(&build::footnotes(&notes, "Footnotes")); }
    expect(out.src, h, r.chance(1, 2))
}
/// In any document: markers count up and lists have the same entries.
fn notes_any(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let n = d.tree.footnotes.len();
        let special = |es: &[Element]| tree::count(es, &|e| matches!(e, Element::Footnote | Element::FootnoteBlock { .. })) > 0;
        if d.tree.footnotes.iter().any(|f| special(f)) { return Err("a footnote contains a footnote or a list of footnotes".into()); }
        let strict = a["strict"].as_bool().unwrap_or(false);
        if d.tree.bibliographies.next_index() > 0 && !strict { return Ok(false); } // recorded finding: notes in dropped entries
        let nodes = d.nodes()?;
        let (mut marks, mut lists, mut hidden) = (vec![], vec![], 0);
        for x in &nodes { x.walk(&mut |x| { if x.tag() == "wj-footnote-ref-marker" { marks.push(x.attr("data-id").unwrap_or("").to_string()); } if x.has_class("wj-footnote-list") && x.kids().len() == 2 && x.kids()[1].tag() == "ol" { lists.push(x); } }); }
        tree::walk_document(d.tree, &mut |e| if let Element::FootnoteBlock { hide: true, .. } = e { hidden += 1 });
        let want: Vec<String> = (1..=n).map(|i| i.to_string()).collect();
        if marks != want { return Err(format!("markers are {marks:?} for {n} footnotes")); }
        let mut asked = 0; tree::walk_document(d.tree, &mut |e| if let Element::FootnoteBlock { hide: false, .. } = e { asked += 1 });
        let shown = if n == 0 { 0 } else { asked };
        if lists.len() != shown { return Err(format!("{} footnote lists, expected {shown}", lists.len())); }
        for l in &lists {
            let li: Vec<&Node> = l.kids()[1].kids().iter().filter(|k| k.tag() == "li").collect();
            let got: Vec<&str> = li.iter().map(|k| k.attr("data-id").unwrap_or("")).collect();
            if got != want { return Err(format!("a list has the entries {got:?} for {n} footnotes")); }
        }
        if asked + hidden == 0 { return Err("no footnote list in the tree".into()); }
        Ok(n > 0)
    })
}
fn notes_doc(r: &mut Rng) -> (String, Value) {
    if r.chance(1, 4) { return page_doc(r); }
    let mut s = String::new();
    for i in 0..1 + r.below(6) {
        let (o, c) = *r.pick(AROUND);
        let f = match r.below(5) { 0 => format!("[[footnoteblock{}]]", *r.pick(&["", " hide=\"yes\"", " title=\"t\"", " hide=\"no\""])), 1 => gen::document(r), _ => { let b = match r.below(4) { 0 => gen::document(r), 1 => "[[footnote]]in[[/footnote]]".into(), _ => format!("n{i}") }; format!("[[footnote]]{b}[[/footnote]]") } };
        s.push_str(o); s.push_str(&f); if r.chance(4, 5) { s.push_str(c); } s.push_str(*r.pick(&["", " ", "\n", "\n\n"]));
    }
    (s, json!({"mode": r.below(5), "wj": r.chance(1, 2)}))
}
pub fn c06() -> Vec<Sub> { vec![Sub { name: "notes", weight: 3, gen: notes_gen, run: build::rendered, fixed: none }, Sub { name: "notes-any", weight: 1, gen: notes_doc, run: notes_any, fixed: none }, build::sub("constructed", 1)] }

// ---- C07 -----------------------------------------------------------------

fn toc_gen(r: &mut Rng) -> (String, Value) {
    let wj = r.chance(1, 2); let iso = r.chance(1, 2);
    let mut out = Piece::default(); let mut tocs = 0;
    let mut g = G::new(r, iso);
    for _ in 0..1 + g.r.below(8) {
        if tocs < 1 && g.r.chance(1, 6) {
            tocs += 1;
            let (s, c) = *g.r.pick(&[("toc", ""), ("f<toc", "wj-float-left"), ("f>toc", "wj-float-right"), ("TOC", ""), ("F<Toc", "wj-float-left")]);
            sep(&mut out, p(format!("[[{s}]]\n"), format!("\u{1}{c}\u{2}")));
            continue;
        }
        match g.r.below(8) {
            0 => { let keep = (g.notes.clone(), g.toc.clone()); let h = g.heading(); (g.notes, g.toc) = keep; if h.src.contains("[!--") { continue; } let (o, c) = *g.r.pick(&[("[[iftags +zzz]]\n", "[[/iftags]]\n"), ("[[ifcategory q]]\n", "[[/ifcategory]]\n"), ("[!--\n", "--]\n")]); sep(&mut out, p(format!("{o}{}{c}", h.src), "")); }
            1 => { let h = g.heading(); sep(&mut out, p(format!("[[div class=\"x\"]]\n{}[[/div]]\n", h.src), format!("<div class=\"x\">{}</div>", h.html))); }
            2 => { let h = g.heading(); sep(&mut out, p(format!("[[blockquote]]\n{}[[/blockquote]]\n", h.src), format!("<blockquote>{}</blockquote>", h.html))); }
            3 => { let (a, b) = (g.heading(), g.heading()); sep(&mut out, p(format!("{}{}", a.src, b.src), format!("{}{}", a.html, b.html))); }
            4 => { let w = g.words(); let n = g.r.below(3) + 7; let m = "+".repeat(n); sep(&mut out, p(format!("{m} {}\n", w.src), format!("<p>{m} {}</p>", w.html))); }
            5 => { let h = g.heading(); let m = g.words(); sep(&mut out, p(format!("{}\n{}\n", m.src, h.src), format!("<p>{}</p>{}", m.html, h.html))); }
            _ => { let h = g.heading(); sep(&mut out, h); }
        }
    }
    let t = build::toc(&g.toc);
    let notes = build::footnotes(&g.notes, "Footnotes");
    let mut h = out.html;
    while let (Some(i), Some(j)) = (h.find('\u{1}'), h.find('\u{2}')) {
        let c = h[i + 1..j].to_string(); let c = if c.is_empty() { c } else { format!(" class=\"{c}\"") };
        h.replace_range(i..j + 1, &format!("<div id=\"wj-toc\"{c}><div id=\"wj-toc-action-bar\"><a href=\"javascript:;\" onclick=\"WIKIJUMP.page.listeners.foldToc(event)\"></a></div><div class=\"title\">Table of Contents</div><div id=\"wj-toc-list\">{t}</div></div>"));
    }
    h.push_str(&notes);
    (out.src, json!({"mode": 0, "wj": wj, "iso": iso, "ids": true, "expect": h}))
}
/// In any document: entries link the marked headings in order.
fn toc_any(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let heads_in = |es: &[Element]| tree::count(es, &|e| matches!(e, Element::Container(c) if matches!(c.ctype(), ContainerType::Header(_)))) > 0;
        if (d.tree.footnotes.iter().any(|f| heads_in(f)) || d.tree.bibliographies.next_index() > 0) && !a["strict"].as_bool().unwrap_or(false) { return Ok(false); } // recorded findings
        let mut heads: Vec<(usize, String)> = vec![];
        tree::walk_document(d.tree, &mut |e| if let Element::Container(c) = e { if let ContainerType::Header(h) = c.ctype() { if h.has_toc { let t = ftml::render::text::TextRender.render_partial(c.elements(), d.info, d.st, 0); heads.push((h.level.value() as usize, t)); } } });
        let want = build::toc(&heads);
        let t = SyntaxTree { elements: d.tree.table_of_contents.clone(), ..Default::default() };
        let _ = t;
        let mut entries = vec![];
        tree::walk(&d.tree.table_of_contents, &mut |e| if let Element::Link { link: LinkLocation::Url(u), label: LinkLabel::Text(t), .. } = e { entries.push((u.to_string(), t.to_string())) });
        let want_entries: Vec<(String, String)> = heads.iter().enumerate().map(|(i, h)| (format!("#toc{i}"), h.1.clone())).collect();
        if entries != want_entries { return Err(format!("entries {entries:?}, expected {want_entries:?}")); }
        if d.text.contains("[[char") || d.text.contains('\0') { return Ok(false); } // may be the NUL character
        let nodes = d.nodes()?;
        let mut tocs = vec![]; let mut ids = vec![];
        for n in &nodes { n.walk(&mut |n| { if n.attr("id") == Some("wj-toc-list") { tocs.push(n); } if n.tag().len() == 2 && n.tag().starts_with('h') && n.tag() != "hr" { if let Some(i) = n.attr("id") { ids.push(i.to_string()); } } }); }
        let wanted = html::parse(&want)?;
        for t in tocs { if let Some(e) = html::diff(&html::canonical(t.kids()), &html::canonical(&wanted), "") { return Err(format!("table of contents: {e}")); } }
        if d.st.use_true_ids { let own: Vec<String> = (0..heads.len()).map(|i| format!("toc{i}")).collect(); if ids != own { return Err(format!("headings have the ids {ids:?}, expected {own:?}")); } }
        Ok(!heads.is_empty())
    })
}
fn toc_doc(r: &mut Rng) -> (String, Value) {
    let mut s = String::new();
    for _ in 0..1 + r.below(8) { match r.below(5) { 0 => s.push_str(&gen::document(r)), 1 => s.push_str("\n[[toc]]\n"), _ => { let l = "+".repeat(1 + r.below(6)); s.push_str(&format!("\n{l}{} {}\n", if r.chance(1, 4) { "*" } else { "" }, *r.pick(&["A", "**b** c", "[[[p|q]]]", "@@x@@", "[[span]]s[[/span]]", "a [[footnote]]n[[/footnote]] b", "[[hidden]]h[[/hidden]] v", "{$x}", "&amp;", "é", "[[image x]]", "[[toc]]"]))) } } }
    (s, json!({"mode": *r.pick(&[0usize, 0, 1, 4]), "wj": r.chance(1, 2), "ids": r.chance(3, 4)}))
}
pub fn c07() -> Vec<Sub> { vec![Sub { name: "headings", weight: 3, gen: toc_gen, run: build::rendered, fixed: none }, Sub { name: "headings-any", weight: 1, gen: toc_doc, run: toc_any, fixed: none }, build::sub("constructed", 1)] }

// ---- C08 -----------------------------------------------------------------

fn cite(n: usize, body: &str, brackets: bool) -> String { let (o, c) = if brackets { ("[", "]") } else { ("", "") }; format!("<span class=\"wj-bibliography-ref\">{o}<wj-bibliography-ref-marker class=\"wj-bibliography-ref-marker\" role=\"link\" aria-label=\"Reference {n}.\" data-id=\"{n}\">{n}</wj-bibliography-ref-marker>{c}<span class=\"wj-bibliography-ref-tooltip\" aria-hidden=\"true\"><span class=\"wj-bibliography-ref-tooltip-label\">Reference {n}.</span><span class=\"wj-bibliography-ref-contents\">{body}</span></span></span>") }
fn bib_gen(r: &mut Rng) -> (String, Value) {
    let names = ["a", "b", "c", "label d", "E", "e", "x-y"];
    let mut bibs: Vec<Vec<(String, String)>> = vec![]; let mut out = Piece::default(); let mut k = 0;
    for _ in 0..1 + r.below(6) {
        if r.chance(1, 2) {
            let (s, t) = *r.pick(&[("", Some("Bibliography")), (" title=\"My <refs>\"", Some("My <refs>")), (" hide=\"true\"", None), (" HIDE=\"F\" TITLE=\"q\"", Some("q")), (" title=\"\"", Some(""))]);
            let mut src = String::new(); let mut list: Vec<(String, String)> = vec![];
            for _ in 0..1 + r.below(4) {
                k += 1; let l = *r.pick(&names);
                let (b, h) = match r.below(4) { 0 => (format!("text **{k}**"), format!("text <strong>{k}</strong>")), 1 => (format!("see [https://e.com/{k} l{k}]"), format!("see <a href=\"https://e.com/{k}\" class=\"wj-link wj-link-external\" data-link-type=\"direct\">l{k}</a>")), _ => (format!("entry <{k}> & : colon"), format!("entry &lt;{k}&gt; &amp; : colon")) };
                src.push_str(&format!(": {l} : {b}\n"));
                if !list.iter().any(|e| e.0 == l) { list.push((l.into(), h)); }
            }
            let i = bibs.len() + 1;
            let h = match t { None => String::new(), Some(t) => format!("<div class=\"wj-bibliography bibitems\"><div class=\"wj-bibliography-title title\">{}</div>{}</div>", esc(t), list.iter().enumerate().map(|(e, x)| { let e = e + 1; format!("<div class=\"wj-bibliography-item bibitem\" id=\"wj-bibliography-item-{i}-{e} bibitem-{i}-{e}\"><wj-bibliography-item-marker class=\"wj-bibliography-item-marker\" type=\"button\" role=\"link\">{e}<span class=\"wj-bibliography-sep\">.</span></wj-bibliography-item-marker>{}</div>", x.1) }).collect::<String>()) };
            let (o, c) = if r.chance(1, 5) { ("[[div]]\n", "[[/div]]\n") } else { ("", "") };
            let (ho, hc) = if o.is_empty() { ("", "") } else { ("<div>", "</div>") };
            let gone = r.chance(1, 7);
            let n = anycase(r, "bibliography");
            if gone { sep(&mut out, p(format!("[[iftags -tale]]\n[[{n}{s}]]\n{src}[[/bibliography]]\n[[/iftags]]\n"), "")); }
            else { bibs.push(list); sep(&mut out, p(format!("{o}[[{n}{s}]]\n{src}[[/bibliography]]\n{c}"), format!("{ho}{h}{hc}"))); }
        } else {
            let mut line = p(format!("t{k}"), format!("t{k}"));
            for _ in 0..1 + r.below(3) {
                k += 1; let l = if r.chance(1, 8) { "nope" } else { *r.pick(&names) };
                let (src, b) = match r.below(4) { 0 if !l.contains(' ') => (format!("((bibcite {l}))"), 0), 1 => (format!("[[bibcite {l}]]"), 1), 2 => (format!("[[bibcite_ {l}]]"), 0), _ => (format!("[[BibCite {l}]]"), 1) };
                line = join(vec![line, p(format!(" {src}z{k}"), format!(" \u{1}{b}{l}\u{2}z{k}"))]);
            }
            let b = context(r, line, 1); sep(&mut out, b);
        }
    }
    let mut h = out.html;
    while let (Some(i), Some(j)) = (h.find('\u{1}'), h.find('\u{2}')) {
        let m = h[i + 1..j].to_string(); let (b, l) = (m.starts_with('1'), &m[1..]);
        let found = bibs.iter().find_map(|x| x.iter().position(|e| e.0 == l).map(|i| (i + 1, x[i].1.clone())));
        h.replace_range(i..j + 1, &match found { Some((n, c)) => cite(n, &c, b), None => "<span class=\"wj-error-inline\">Bibliography item not found</span>".to_string() });
    }
    expect(out.src, h, r.chance(1, 2))
}
pub fn c08() -> Vec<Sub> { vec![Sub { name: "citations", weight: 1, gen: bib_gen, run: build::rendered, fixed: none }] }

// ---- C11 -----------------------------------------------------------------

/// Words in markup that may or may not complete: each one is shown once, in order.
const AROUND: &[(&str, &str)] = &[("**", "**"), ("//", "//"), ("__", "__"), ("^^", "^^"), (",,", ",,"), ("{{", "}}"), ("##red|", "##"), ("[[div]]\n", "\n[[/div]]\n"), ("[[span]]", "[[/span]]"), ("[[b]]", "[[/b]]"), ("[[size 1]]", "[[/size]]"), ("[[blockquote]]\n", "\n[[/blockquote]]\n"), ("[[=]]\n", "\n[[/=]]\n"), ("[[ul]][[li]]", "[[/li]][[/ul]]"), ("[[table]][[row]][[cell]]", "[[/cell]][[/row]][[/table]]"), ("\n* ", "\n"), ("\n # ", "\n"), ("\n> ", "\n"), ("\n>> ", "\n"), ("\n||", "||\n"), ("\n||~ ", "||\n||"), ("\n+ ", "\n"), ("\n++* ", "\n"), ("\n= ", "\n"), ("\n: ", " : "), ("\n: ", " :"), ("\n: k :", "\n: k : v\n"), ("\n: k : ", " :\n: k :"), ("\n: k : v\n: ", " :\n"), ("@@", "@@"), ("@<", ">@"), ("[[a href=\"u\"]]", "[[/a]]"), ("[[iftags +tale]]", "[[/iftags]]"), ("[[ruby]]", "[[/ruby]]"), ("[[code]]\n", "\n[[/code]]\n"), ("[[later]]", "[[/later]]"), ("[[p]]", "[[/p]]"), ("[[invisible]]", "[[/invisible]]"), ("[[hidden]]", "[[/hidden]]"), ("[[mark]]", "[[/mark]]"), ("((", "))"), ("[[", "]]"), ("[[li]]", "[[/li]]"), ("[[row]]", "[[/row]]"), ("[[cell]]", "[[/cell]]"), ("[[rt]]", "[[/rt]]"), ("[", "]"), ("{$", "}"), ("`", "'"), ("<<", ">>"), ("[[/div]]", "[[/span]]"), ("\n\n", "\n\n"), ("\n", " _\n"), ("--", "--"), ("\n----\n", "\n~~~~\n"), ("[[nosuch]]", "[[/nosuch]]"), ("[[footnote", "]]"), ("\n* *", "\n#"), ("||||", "||"), ("\n|| ||", "||\n||"), ("[[_", "]]"), ("[[*", "]]"), ("\n  *", "\n"), ("\n:", ":\n"), ("[[# ", ""), ("\\", "\\"), ("!", "_"), ("[#", "x")];
fn soup(r: &mut Rng, depth: usize, n: &mut usize, out: &mut String) {
    for _ in 0..1 + r.below(3) {
        if depth > 0 && r.chance(3, 5) {
            let (o, c) = *r.pick(AROUND);
            if r.chance(5, 6) { out.push_str(o); if r.chance(1, 3) { out.push(' '); } }
            soup(r, depth - 1, n, out);
            if r.chance(3, 4) { if r.chance(1, 3) { out.push(' '); } out.push_str(c); }
        } else { out.push_str(&format!("wq{n}z")); *n += 1; if r.chance(1, 4) { out.push_str(*r.pick(&[" ", "\n", "&", "<", "\"", "é", "\u{1f4af}"])); } }
    }
}
fn soup_gen(r: &mut Rng) -> (String, Value) { let mut s = String::new(); soup(r, 3, &mut 0, &mut s); (s, json!({"mode": r.below(5), "wj": r.chance(1, 2)})) }
fn words_of(s: &str) -> Vec<usize> {
    let mut v = vec![]; let mut rest = s;
    while let Some(i) = rest.find("wq") { rest = &rest[i + 2..]; let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect(); if !d.is_empty() && rest[d.len()..].starts_with('z') { v.push(d.parse().unwrap()); } }
    v
}
/// Words inside of attributes, heads and links may be consumed; all others occur once in order.
fn conserved(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let nodes = d.nodes()?;
        let shown: String = nodes.iter().map(|n| n.text()).collect();
        let mut toc = false; tree::walk_document(d.tree, &mut |e| if matches!(e, Element::TableOfContents { .. }) { toc = true });
        if toc || !d.tree.footnotes.is_empty() || d.tree.bibliographies.next_index() > 0 { return Ok(false); }
        let got = words_of(&shown);
        // what an element legitimately takes out of the text
        let mut taken: Vec<usize> = vec![];
        for n in &nodes { n.walk(&mut |n| { for (_, v) in n.attrs() { taken.extend(words_of(v)); } }); }
        let json = serde_json::to_string(&d.tree.elements).unwrap();
        let mut want = vec![]; let mut rest = words_of(&d.text);
        rest.dedup();
        let mut lost = vec![];
        for w in rest { if got.contains(&w) { want.push(w); } else if taken.contains(&w) || json.contains(&format!("wq{w}z")) { } else { lost.push(w); } }
        // a word which is in the head of a block that completed is an argument
        lost.retain(|w| !argument(d.text, *w));
        if !lost.is_empty() { return Err(format!("words {lost:?} are not shown: {:?}", clip(&shown))); }
        let twice: Vec<usize> = got.iter().copied().filter(|w| got.iter().filter(|x| *x == w).count() > 1).collect();
        let mut uniq = got.clone(); uniq.dedup();
        if !twice.is_empty() { return Err(format!("words {twice:?} are shown more than once: {:?}", clip(&shown))); }
        if uniq != want { return Err(format!("words are shown in the order {uniq:?}, expected {want:?}")); }
        Ok(!want.is_empty())
    })
}
/// Within one pair of brackets, a comment, a color or a variable.
fn argument(t: &str, w: usize) -> bool {
    let pos = t.find(&format!("wq{w}z")).unwrap_or(0);
    let (b, e) = (&t[..pos], &t[pos..]);
    let open = b.rfind("[[").map(|i| !b[i..].contains("]]")).unwrap_or(false) && e.find("]]").is_some();
    let anchor = b.rfind("[[#").map(|i| !b[i..].contains("]]")).unwrap_or(false);
    let hash = b.rfind("##").is_some() && e.contains('|');
    open || anchor || hash || b.ends_with('#') || b.rfind("[#").is_some() || b.rfind("[!--").is_some() || b.rfind("[[code").is_some()
}
/// Markup which is not complete, in a line of words: shown as written.
fn literal_gen(r: &mut Rng) -> (String, Value) {
    let mut g = G::new(r, false); let k = 1 + g.r.below(4); let mut out = Piece::default();
    for _ in 0..k { let b = g.broken(); out = join(vec![out, b]); if ["[[code", "[[html]]", "[[footnote]]", "[!--", "@@", "[[math", "@<", "[[module"].iter().any(|x| out.src.contains(x)) { break; } }
    // two different ones may form something together
    let distinct = k == 1;
    let (s, h) = (out.src, out.html);
    (s, if distinct { json!({"mode": 0, "wj": g.r.chance(1, 2), "expect": h}) } else { json!({"mode": 9}) })
}
/// Text without any markup characters.
fn plain_gen(r: &mut Rng) -> (String, Value) {
    let mut src = String::new(); let mut h = String::new();
    let words = ["word", "x", "a.b", "1", "2.5", "é", "日本語", "\u{1f4af}", "a'b", "\"q\"", "&", "<", "<b>", ">", "a&amp;b", "c;d", "(e)", "f/g", "h-i", "j_k", "a@b", "?", "!", "100%", "$", "$5", "a=b", "k:l", "^", "~", "a~b", "*x", "x*", "#1", "a#", "+1", "|", "{", "}", "[", "]", "[x]", "\\", "\\n", "`", "\u{a0}x", "\u{200b}", "'", "a,b", "#", "..x", "\u{7f}", "e\u{301}", "-", "–", "—", "_", "/", ":", "=", "@", ","];
    for i in 0..1 + r.below(4) {
        if i > 0 { src.push_str(*r.pick(&["\n\n", "\n\n\n", "\n \n"])); }
        let mut first = true; h.push_str("<p>");
        for _ in 0..1 + r.below(3) {
            if !first { src.push('\n'); h.push_str("<br>"); } first = false;
            let mut line = vec!["w".to_string()];
            for _ in 0..1 + r.below(5) { line.push(r.pick(&words).to_string()); }
            line.push("z".into());
            let l = line.join(" "); src.push_str(&l); h.push_str(&esc(&l));
        }
        h.push_str("</p>");
    }
    (src, json!({"mode": r.below(5), "wj": r.chance(1, 2), "expect": h}))
}
fn plain_run(text: &str, a: &Value) -> Outcome { if !super::page::settled_lines(text) { return Ok(false); } build::rendered(text, a) }
pub fn c11() -> Vec<Sub> { vec![Sub { name: "words", weight: 3, gen: soup_gen, run: conserved, fixed: none }, Sub { name: "unfinished", weight: 1, gen: literal_gen, run: build::rendered, fixed: none }, Sub { name: "plain", weight: 1, gen: plain_gen, run: plain_run, fixed: none }, build::sub("constructed", 1)] }

// ---- C14 -----------------------------------------------------------------

fn depths(r: &mut Rng, max: usize) -> Vec<usize> {
    let mut d = r.below(3); let mut v = vec![];
    for _ in 0..1 + r.below(12) { v.push(d); d = match r.below(5) { 0 => (d + 1 + r.below(3)).min(max), 1 | 2 => r.below(d + 1), _ => d }; }
    v
}
fn nest_gen(r: &mut Rng) -> (String, Value) {
    let kind = r.below(4); let wj = r.chance(1, 2);
    let (src, h) = match kind {
        0 | 1 => {
            let ds = depths(r, 8); let kinds: Vec<char> = ds.iter().map(|_| if kind == 0 { *r.pick(&['*', '#']) } else { '*' }).collect();
            let items: Vec<(usize, char, Piece)> = ds.iter().enumerate().map(|(i, d)| { let b = if r.chance(1, 5) { p(format!("i{i} **b**"), format!("i{i} <strong>b</strong>")) } else { p(format!("i{i}"), format!("i{i}")) }; (*d, kinds[i], b) }).collect();
            (items.iter().map(|(d, k, b)| format!("{}{k} {}\n", " ".repeat(*d), b.src)).collect::<String>(), build::lists(&items))
        }
        2 => {
            let items: Vec<(usize, String)> = depths(r, 8).iter().enumerate().map(|(i, d)| (d + 1, format!("i{i}"))).collect();
            (items.iter().map(|(d, b)| format!("{} {b}\n", ">".repeat(*d))).collect::<String>(), build::quotes(&items, 1))
        }
        _ => {
            let items: Vec<(usize, String)> = depths(r, 5).iter().enumerate().map(|(i, d)| (d + 1, format!("i{i}"))).collect();
            let heads: String = items.iter().enumerate().map(|(i, (l, t))| format!("<h{l} id=\"toc{i}\">{t}</h{l}>")).collect();
            let t = build::toc(&items);
            (format!("{}[[toc]]\n", items.iter().map(|(l, t)| format!("{} {t}\n", "+".repeat(*l))).collect::<String>()), format!("{heads}<div id=\"wj-toc\"><div id=\"wj-toc-action-bar\"><a href=\"javascript:;\" onclick=\"WIKIJUMP.page.listeners.foldToc(event)\"></a></div><div class=\"title\">Table of Contents</div><div id=\"wj-toc-list\">{t}</div></div>"))
        }
    };
    let (o, c, ho, hc) = *r.pick(&[("", "", "", ""), ("", "", "", ""), ("[[div]]\n", "[[/div]]\n", "<div>", "</div>"), ("para\n", "", "<p>para</p>", ""), ("", "\npara\n", "", "<p>para</p>")]);
    (format!("{o}{src}{c}"), json!({"mode": 0, "wj": wj, "ids": true, "expect": format!("{ho}{h}{hc}")}))
}
/// All sequences of three items exactly, the first at any depth.
fn nest_fixed() -> Vec<(String, Value)> {
    let mut v = vec![];
    for a in 0..4 { for b in 0..4 { for c in 0..4 { for k in 0..8usize {
        let items: Vec<(usize, char, Piece)> = [a, b, c].iter().enumerate().map(|(i, d)| (*d, if k >> i & 1 == 1 { '#' } else { '*' }, p(format!("i{i}"), format!("i{i}")))).collect();
        v.push((items.iter().map(|(d, k, b)| format!("{}{k} {}\n", " ".repeat(*d), b.src)).collect::<String>(), json!({"mode": 0, "expect": build::lists(&items)})));
    } let items: Vec<(usize, String)> = [a, b, c].iter().enumerate().map(|(i, d)| (d + 1, format!("i{i}"))).collect();
      v.push((items.iter().map(|(d, b)| format!("{} {b}\n", ">".repeat(*d))).collect::<String>(), json!({"mode": 0, "expect": build::quotes(&items, 1)}))); } } }
    v
}
pub fn c14() -> Vec<Sub> { vec![Sub { name: "nesting", weight: 3, gen: nest_gen, run: build::rendered, fixed: nest_fixed }, build::sub("constructed", 1)] }

// ---- C17 -----------------------------------------------------------------

fn holds(spec: &str, values: &[String], category: bool) -> bool {
    if category {
        // a page has one category: "+" adds nothing
        let words: Vec<&str> = spec.split(' ').filter(|w| !w.is_empty()).collect();
        let has = |v: &str| values.iter().any(|x| x == v);
        let plain: Vec<&str> = words.iter().filter(|w| !w.starts_with('-')).map(|w| w.strip_prefix('+').unwrap_or(w)).collect();
        return words.iter().filter_map(|w| w.strip_prefix('-')).all(|w| !has(w)) && (plain.is_empty() || plain.iter().any(|w| has(w)));
    }
    let words: Vec<&str> = spec.split(' ').filter(|w| !w.is_empty()).collect();
    let has = |v: &str| values.iter().any(|x| x == v);
    let plain: Vec<&&str> = words.iter().filter(|w| !w.starts_with(['+', '-'])).collect();
    words.iter().filter_map(|w| w.strip_prefix('+')).all(|w| has(w)) && words.iter().filter_map(|w| w.strip_prefix('-')).all(|w| !has(w)) && (plain.is_empty() || plain.iter().any(|w| has(w)))
}
const TAGS: &[&str] = &["tale", "_cc", "scp", "a-b", "é", "x", "+p", "-m", "tal", "TALE", "12", "_"];
fn spec(r: &mut Rng) -> String { let mut s = String::new(); for i in 0..1 + r.below(5) { if i > 0 { s.push_str(*r.pick(&[" ", " ", "  "])); } s.push_str(*r.pick(&["+", "-", "", "", "+", "-"])); s.push_str(*r.pick(TAGS)); } s }
fn cond_gen(r: &mut Rng) -> (String, Value) {
    let tags: Vec<String> = { let mut v: Vec<String> = vec![]; for _ in 0..r.below(5) { let t = r.pick(TAGS).to_string(); if !v.contains(&t) { v.push(t); } } v };
    let category = r.pick(&["_default", "scp", "a-b", "tale"]).to_string();
    let (mut src, mut h) = (String::new(), String::new());
    let mut notes: Vec<String> = vec![]; let mut heads = 0; let mut codes: Vec<String> = vec![];
    let mut k = 0;
    for _ in 0..1 + r.below(3) {
        let cat = r.chance(1, 3); let s = spec(r);
        let s = s.replace("--", "-").replace("__", "_");
        let yes = if cat { holds(&s, &[category.clone()], true) } else { holds(&s, &tags, false) };
        let name = if cat { "ifcategory" } else { "iftags" };
        let n = anycase(r, name);
        k += 1;
        match r.below(6) {
            0 => { src.push_str(&format!("u{k} [[{n} {s}]]v{k} [[footnote]]n{k}[[/footnote]] w[[/{name}]] x\n\n")); h.push_str(&format!("<p>u{k} ")); if yes { notes.push(format!("n{k}")); h.push_str(&format!("v{k} {} w", marker(notes.len(), &format!("n{k}")))); } h.push_str(" x</p>"); }
            1 => { src.push_str(&format!("[[{n} {s}]]\n+ H{k}\n[[/{name}]]\n[[div]]\n[[/div]]\n")); if yes { h.push_str(&format!("<h1 id=\"toc{heads}\">H{k}</h1>")); heads += 1; } h.push_str("<div></div>"); }
            2 => { src.push_str(&format!("u{k} [[{n} {s}]]v{k} [[{n} {s}]]in[[/{name}]] **b**[[/{name}]] x\n\n")); h.push_str(&if yes { format!("<p>u{k} v{k} in <strong>b</strong> x</p>") } else { format!("<p>u{k}  x</p>") }); }
            3 => { src.push_str(&format!("[[div]]\n[[{n} {s}]]\n[[div class=\"k\"]]\nv{k}\n[[/div]]\n[[/{name}]]\n[[/div]]\n")); h.push_str(&if yes { format!("<div><div class=\"k\"><p>v{k}</p></div></div>") } else { "<div></div>".into() }); }
            4 => { src.push_str(&format!("[[table]][[row]][[{n} {s}]][[cell]]v{k}[[/cell]][[/{name}]][[cell]]y[[/cell]][[/row]][[/table]]\n")); h.push_str(&format!("<table><tbody><tr>{}<td>y</td></tr></tbody></table>", if yes { format!("<td>v{k}</td>") } else { String::new() })); }
            _ => { src.push_str(&format!("u{k} [[{n} {s}]]v{k} <b>[[/{name}]] x\n\n")); h.push_str(&format!("<p>u{k} {} x</p>", if yes { format!("v{k} &lt;b&gt;") } else { String::new() })); }
        }
        if r.chance(1, 4) { k += 1; let b = format!("c{k}"); let s = spec(r).replace("--", "-").replace("__", "_"); let yes = holds(&s, &tags, false); src.push_str(&format!("[[iftags {s}]]\n[[html]]\n{b}\n[[/html]]\n[[/iftags]]\n[[div]]\n[[/div]]\n")); if yes { codes.push(b); h.push_str("<iframe src=\"https://example.com/\" crossorigin></iframe>"); } h.push_str("<div></div>"); }
    }
    h.push_str(&build::footnotes(&notes, "Footnotes"));
    let mut a = json!({"mode": 0, "wj": r.chance(1, 2), "ids": true, "tags": tags, "expect": h, "html": codes, "code": []});
    if category != "_default" || r.chance(1, 2) { a["category"] = json!(category); }
    (src, a)
}
fn cond_run(text: &str, a: &Value) -> Outcome { if !super::page::settled_lines(text) { return Ok(false); } build::rendered(text, a) }
pub fn c17() -> Vec<Sub> { vec![Sub { name: "conditions", weight: 3, gen: cond_gen, run: cond_run, fixed: none }, build::sub("constructed", 1)] }

// ---- C18 -----------------------------------------------------------------

fn unescape(s: &str) -> String {
    let mut o = String::new(); let c: Vec<char> = s.chars().collect(); let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() {
            let r = match c[i + 1] { '\\' => Some('\\'), '"' => Some('"'), '\'' => Some('\''), 'r' => Some('\r'), 'n' => Some('\n'), 't' => Some('\t'), _ => None };
            match r { Some(x) => o.push(x), None => { o.push('\\'); o.push(c[i + 1]); } }
            i += 2;
        } else { o.push(c[i]); i += 1; }
    }
    o
}
fn raw_value(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(8) { s.push_str(*r.pick(&["x", "\\\\", "\\\"", "\\'", "\\n", "\\t", "\\r", "\\x", "\\é", "\\ ", "\\0", "\\N", "é", "\u{1f4af}", "'", "]]", "[[", "=", " ", "  ", "<", "&", "**", "--]", "[!--", "@@", "{$v}", "|", "\\]", "//", "\\日", "#", "\\\u{1f4af}", "`"])); }
    s
}
const BODIED: &[(&str, &str, &str)] = &[("[[span", "]]x[[/span]]", "span"), ("[[div", "]]\nx\n[[/div]]", "div"), ("[[b", "]]x[[/b]]", "strong"), ("[[ul]][[li", "]]x[[/li]][[/ul]]", "li"), ("[[table]][[row]][[cell", "]]x[[/cell]][[/row]][[/table]]", "td"), ("[[a", "]]x[[/a]]", "a"), ("[[checkbox", "]]", "input"), ("[[image https://e.com/i.png", "]]", "img"), ("[[iframe https://e.com/", "]]", "iframe"), ("[[collapsible", "]]x[[/collapsible]]", "details"), ("[[radio grp", "]]", "input")];
fn values_gen(r: &mut Rng) -> (String, Value) {
    let (o, c, tag) = *r.pick(BODIED);
    let mut s = o.to_string(); let mut want: Option<String> = None;
    for i in 0..1 + r.below(3) {
        let v = raw_value(r); let k = anycase(r, "title"); let (a, b) = *r.pick(&[("", ""), ("", ""), (" ", " "), ("", "  ")]);
        let sp = if i > 0 && r.chance(1, 6) { "\n " } else { " " };
        s.push_str(&format!("{sp}{k}{a}={b}\"{v}\"")); want = Some(unescape(&v));
        if r.chance(1, 3) { let v = raw_value(r); let k = *r.pick(&["lang", "data-q", "onclick", "alt"]); let k = anycase(r, k); let k = if k.contains('-') { k.to_lowercase() } else { k }; s.push_str(&format!(" {k}=\"{v}\"")); }
    }
    s.push_str(c);
    (s, json!({"mode": 0, "wj": true, "tag": tag, "title": want}))
}
fn values(text: &str, a: &Value) -> Outcome {
    if !super::page::settled(text) { return Ok(false); }
    let Some(want) = a["title"].as_str() else { return Ok(false) };
    with(text, a, |d| {
        let mut got = vec![];
        for n in &d.nodes()? { n.walk(&mut |n| if n.tag() == a["tag"].as_str().unwrap() { if let Some(t) = n.attr("title") { got.push(t.to_string()); } }); }
        if got != [want] { return Err(format!("titles are {got:?}, expected {want:?}")); }
        Ok(true)
    })
}
fn truth(v: &str) -> Option<bool> { match v.trim().to_ascii_lowercase().as_str() { "true" | "t" | "1" | "yes" => Some(true), "false" | "f" | "0" | "no" => Some(false), _ => None } }
fn bool_value(r: &mut Rng) -> String {
    let b = *r.pick(&["true", "false", "t", "f", "1", "0", "yes", "no", "y", "n", "tr", "on", "off", "", "2", "truee", "ye", "01", "tRue", "fa lse", "\u{ff11}", "-1", "oui", "nо"]);
    format!("{}{}{}", *r.pick(&["", "", " ", "  ", "\u{a0}", "\u{3000}"]), anycase(r, b), *r.pick(&["", "", " ", "\u{2003}"]))
}
fn bools_gen(r: &mut Rng) -> (String, Value) {
    let (k, v) = (r.below(4), bool_value(r)); let t = truth(&v);
    let text = match k {
        0 => format!("[[collapsible {}=\"{v}\"]]\nx\n[[/collapsible]]", anycase(r, "folded")),
        1 => format!("[[footnoteblock {}=\"{v}\"]]\n\nx[[footnote]]n[[/footnote]]", anycase(r, "hide")),
        2 => format!("[[bibliography {}=\"{v}\"]]\n: a : b\n[[/bibliography]]", anycase(r, "hide")),
        _ => format!("[[span {}=\"{v}\"]]x[[/span]]", anycase(r, "hidden")),
    };
    (text, json!({"mode": 0, "kind": k, "value": t, "raw": v}))
}
fn bools(text: &str, a: &Value) -> Outcome {
    if !super::page::settled(text) { return Ok(false); }
    let v = a["value"].as_bool();
    let raw = a["raw"].as_str().unwrap_or("");
    let direct = ftml::parsing::parse_boolean(raw).ok();
    if direct != truth(raw) { return Err(format!("parse_boolean({raw:?}) is {direct:?}")); }
    with(text, a, |d| {
        let nodes = d.nodes()?;
        let find = |f: &dyn Fn(&Node) -> bool| { let mut n = 0; for x in &nodes { x.walk(&mut |x| if f(x) { n += 1 }); } n };
        let shown: String = nodes.iter().map(|n| n.text()).collect();
        let (what, got, want): (&str, (usize, bool), (usize, bool)) = match a["kind"].as_u64() {
            Some(0) => ("open", (find(&|n| n.tag() == "details"), find(&|n| n.tag() == "details" && n.attr("open").is_some()) > 0), match v { Some(v) => (1, !v), None => (0, false) }),
            Some(1) => ("footnote list", (1, find(&|n| n.has_class("wj-footnote-list")) > 0), match v { Some(v) => (1, !v), None => (1, true) }),
            Some(2) => ("bibliography", (find(&|n| n.has_class("wj-bibliography")), shown.contains("[[bib")), match v { Some(true) => (0, false), Some(false) => (1, false), None => (0, true) }),
            Some(3) => ("hidden attribute", (find(&|n| n.tag() == "span" && n.attr("hidden").is_some()), true), match v { Some(false) => (0, true), _ => (1, true) }),
            _ => return Ok(false),
        };
        if got != want { return Err(format!("{what} is {got:?} for {raw:?}, expected {want:?}")); }
        Ok(true)
    })
}
pub fn c18() -> Vec<Sub> { vec![Sub { name: "values", weight: 2, gen: values_gen, run: values, fixed: none }, Sub { name: "booleans", weight: 1, gen: bools_gen, run: bools, fixed: none }, build::sub("constructed", 1)] }

// ---- C20 -----------------------------------------------------------------

/// (source, needs page syntax, element made of it)
const PAGED: &[(&str, &str)] = &[("[[module Rate]]", "module"), ("[[MODULE654 backlinks page=\"x\"]]", "module"), ("[[module Categories]]", "module"), ("[[module CSS]]\na { b: c }\n[[/module]]", "style"), ("[[module Join]]", "module"), ("[[module PageTree]]", "module"), ("[[toc]]", "table-of-contents"), ("[[f<toc]]", "table-of-contents"), ("[[F>TOC]]", "table-of-contents"), ("[[include-elements page]]", "")];
fn modes_gen(r: &mut Rng) -> (String, Value) {
    let mut s = String::new(); let (mut n, mut want) = (0, vec![]);
    for i in 0..1 + r.below(4) {
        if r.chance(1, 3) { let img = *r.pick(&[("[[image x.png]]", true), ("[[image p/x.png]]", true), ("[[image /p/x.png]]", true), ("[[=image :s:p:x.png]]", true), ("[[image https://e.com/x.png]]", false), ("[[f>image local.gif link=\"p\"]]", true)]); s.push_str(&format!("a{i} {}b\n\n", img.0)); want.push(json!(img.1)); }
        else { let (t, k) = *r.pick(PAGED); if k.is_empty() { continue; } let (o, c) = *r.pick(if t.contains('\n') { &[("", "\n\n"), ("[[div]]\n", "\n[[/div]]\n"), ("a\n\n", "\n\nb\n\n")][..] } else { &[("", "\n\n"), ("[[div]]\n", "\n[[/div]]\n"), ("a\n\n", "\n\nb\n\n"), (": k : ", "\n\n"), (": k : v\n: k : w ", "\n\n"), ("* i ", "\n\n"), ("> q ", "\n\n"), ("||a||b ", "||\n\n"), ("[[ul]][[li]]", "[[/li]][[/ul]]\n\n")][..] }); s.push_str(&format!("{o}{t}{c}")); n += 1; }
    }
    (s, json!({"mode": r.below(5), "wj": r.chance(1, 2), "n": n, "images": want}))
}
fn modes(text: &str, a: &Value) -> Outcome {
    let m = a["mode"].as_u64().unwrap_or(0) as usize;
    let paged = [0, 1, 4].contains(&m);
    with(text, a, |d| {
        let n = a["n"].as_u64().unwrap_or(0) as usize;
        let mut k = 0;
        tree::walk_document(d.tree, &mut |e| if matches!(e, Element::Module(_) | Element::TableOfContents { .. } | Element::Style(_) | Element::Include { .. }) { k += 1 });
        let refused = d.errors.iter().filter(|e| e.kind() == ftml::parsing::ParseErrorKind::NotSupportedMode).count();
        if paged && (k != n || refused != 0) { return Err(format!("{k} page features of {n} are available, {refused} refused")); }
        if !paged && (k != 0 || refused != n) { return Err(format!("{k} page features of {n} are available where they are not allowed, {refused} refused")); }
        let nodes = d.nodes()?;
        let shown: String = nodes.iter().map(|n| n.text()).collect();
        if !paged { let keep: Vec<&str> = PAGED.iter().map(|p| p.0.split(']').next().unwrap()).collect(); let (mut a, mut b) = (0, 0); for w in keep { a += text.matches(w).count(); b += shown.matches(w).count(); } if a != b { return Err(format!("refused markup is not shown as text: {shown:?}")); } }
        let want = a["images"].as_array().cloned().unwrap_or_default();
        let (mut img, mut bad) = (0, 0);
        for x in &nodes { x.walk(&mut |x| { if x.tag() == "img" && x.has_class("wj-image") { img += 1; if !paged && x.attr("src").map(|s| s.contains("local--files")).unwrap_or(false) { bad += 100; } } if x.has_class("wj-error-block") { bad += 1; } }); }
        let local = want.iter().filter(|w| w.as_bool() == Some(true)).count();
        let expect = if paged { (want.len(), 0) } else { (want.len() - local, local) };
        if (img, bad) != expect { return Err(format!("{img} images and {bad} errors, expected {expect:?}")); }
        Ok(n + want.len() > 0)
    })
}
/// What a mode allows, the inclusion of pages, and documents without page features.
fn table_gen(r: &mut Rng) -> (String, Value) { (format!("{}[[include page-x a=b]]{}", *r.pick(&["", "a\n", "[[div]]\n"]), *r.pick(&["", "\nb"])), json!({"mode": r.below(5), "wj": r.chance(1, 2)})) }
fn table_fixed() -> Vec<(String, Value)> { (0..10).map(|i| ("[[include x]]".to_string(), json!({"mode": i % 5, "wj": i >= 5}))).collect() }
struct Fixed; 
impl<'t> Includer<'t> for Fixed {
    type Error = String;
    fn include_pages(&mut self, l: &[ftml::includes::IncludeRef<'t>]) -> Result<Vec<ftml::includes::FetchedPage<'t>>, String> { Ok(l.iter().map(|i| ftml::includes::FetchedPage { page_ref: i.page_ref().clone(), content: Some(Cow::Borrowed("INCLUDED")) }).collect()) }
    fn no_such_include(&mut self, _: &ftml::data::PageRef<'t>) -> Result<Cow<'t, str>, String> { Ok(Cow::Borrowed("NONE")) }
}
fn table(text: &str, a: &Value) -> Outcome {
    let m = a["mode"].as_u64().unwrap_or(0) as usize % 5;
    let mode = MODES[m];
    let layout = if a["wj"].as_bool().unwrap_or(false) { Layout::Wikijump } else { Layout::Wikidot };
    let s = WikitextSettings::from_mode(mode, layout);
    let (paged, ids) = ([0, 1, 4].contains(&m), m == 0);
    if (s.enable_page_syntax, s.use_true_ids, s.allow_local_paths, s.isolate_user_ids) != (paged, ids, paged, false) || s.mode != mode || s.layout != layout { return Err(format!("settings of {mode:?} are {s:?}")); }
    if s.interwiki != *ftml::settings::DEFAULT_INTERWIKI || s.use_include_compatibility { return Err(format!("settings of {mode:?} are {s:?}")); }
    let (out, pages) = ftml::include(text, &s, Fixed, || panic!("bad includer")).map_err(|e| format!("{e:?}"))?;
    let n = text.matches("[[include").count();
    if paged && (out.contains("[[include") || pages.len() != n || out.matches("INCLUDED").count() != n) { return Err(format!("inclusion gives {out:?}")); }
    if !paged && (out != text || !pages.is_empty()) { return Err(format!("inclusion without page syntax gives {out:?} {pages:?}")); }
    Ok(true)
}
/// Without page syntax, no document has page features.
fn confined_gen(r: &mut Rng) -> (String, Value) { (gen::document(r), json!({"mode": 2 + r.below(2), "wj": r.chance(1, 2)})) }
fn confined(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let mut bad = None;
        tree::walk_document(d.tree, &mut |e| if matches!(e, Element::Module(_) | Element::TableOfContents { .. } | Element::Include { .. }) { bad = Some(format!("{e:?}")) });
        if let Some(b) = bad { return Err(format!("{b} where page syntax is not allowed")); }
        for n in &d.nodes()? { n.walk(&mut |n| if n.tag() == "img" && n.attr("src").map(|s| s.contains(".wjfiles.com/local--files")).unwrap_or(false) { bad = Some("an image by local path".into()) }); }
        match bad { Some(b) => Err(format!("{b} where it is not allowed")), None => Ok(d.errors.iter().any(|e| e.kind() == ftml::parsing::ParseErrorKind::NotSupportedMode)) }
    })
}
pub fn c20() -> Vec<Sub> { vec![Sub { name: "features", weight: 3, gen: modes_gen, run: modes, fixed: none }, Sub { name: "table", weight: 1, gen: table_gen, run: table, fixed: table_fixed }, Sub { name: "confined", weight: 1, gen: confined_gen, run: confined, fixed: none }] }

// ---- C23 -----------------------------------------------------------------

const BITS: &[&str] = &["**", "//", "[[b]]", "[[/b]]", "[[/code]", "{{", "##red|", "||", "<x>", "&amp;", "&", "[[[p]]]", "[!--", "--]", "x", "é", "\u{1f4af}", " ", "  ", "\"", "'", "[[div]]", "[[/div]]", "{$v}", "((bibcite a))", "[[footnote]]n[[/footnote]]", "http://e.com", "@", "=", "+", "*", "#", ">", "<", "[[# a]]", "^^", ",,", "]]", "[[", "\\", "a@b.c", "[[toc]]", "----", "word", "[[/html]", "[[/ x]]", "$]]", "[[$"];
fn bits(r: &mut Rng, lines: bool, bad: &[&str]) -> String {
    loop {
        let mut s = String::new();
        for _ in 0..r.below(8) { s.push_str(*r.pick(BITS)); if lines && r.chance(1, 4) { s.push_str(*r.pick(&["\n", "\n\n"])); } }
        let l = s.to_lowercase();
        if !bad.iter().any(|b| l.contains(b)) && super::page::settled(&format!("a{s}b")) { return s; }
    }
}
fn verbatim_gen(r: &mut Rng) -> (String, Value) {
    let (mut src, mut h) = (String::new(), String::new()); let (mut code, mut html, mut math) = (vec![], vec![], vec![]);
    for i in 0..1 + r.below(4) {
        match r.below(8) {
            0 | 1 => { let b = bits(r, false, &["@@", "@<", ">@", "://"]); let b = if b.starts_with(['@', '<', '>']) || b.ends_with(['@', '<', '>']) || b.is_empty() { format!("q{b}q") } else { b }; src.push_str(&format!("t{i} @@{b}@@ u **z**\n\n")); h.push_str(&format!("<p>t{i} <span class=\"wj-raw\">{}</span> u <strong>z</strong></p>", esc(&b))); }
            2 => { let b = bits(r, false, &[">@", "@<", "@@", "://"]); let b = if b.is_empty() || b.starts_with(['@', '<', '>']) || b.ends_with(['@', '<', '>', '|']) { format!("q{b}q") } else { b }; src.push_str(&format!("t{i} @<{b}>@ u\n\n")); h.push_str(&format!("<p>t{i} <span class=\"wj-raw\">{}</span> u</p>", esc(&b))); }
            3 => { let (s, w) = *r.pick(&[("@@@@", ""), ("@@@@@", "@"), ("@@@@@@", "@@"), ("@@ @@", " "), ("@@[[b]]@@", "[[b]]"), ("@@**@@", "**"), ("@@>@@", "@@>@@"), ("@<@@>@", "@@"), ("@<&amp;>@", "&amp;"), ("@@\\@@", "\\")]); if w == "@@>@@" { src.push_str("q\n\n"); h.push_str("<p>q</p>"); continue; } src.push_str(&format!("t{i} {s} u\n\n")); h.push_str(&format!("<p>t{i} <span class=\"wj-raw\">{}</span> u</p>", esc(w))); }
            4 => { let b = bits(r, true, &["--]", "://"]); let b = if b.starts_with('-') || b.ends_with('-') { format!(" {b} ") } else { b }; match r.below(3) { 0 => { src.push_str(&format!("t{i} [!--{b}--]u\n\n")); h.push_str(&format!("<p>t{i} u</p>")); } 1 => { src.push_str(&format!("t{i}[!--{b}--]u[!----]v\n\n")); h.push_str(&format!("<p>t{i}uv</p>")); } _ => { src.push_str(&format!("**t{i}[!--{b}--]u** v\n\n")); h.push_str(&format!("<p><strong>t{i}u</strong> v</p>")); } } }
            5 => { let b = bits(r, true, &["[[/code"]); let b = format!("{}c{}{b}c{}", *r.pick(&["", "", " ", "  "]), *r.pick(&["", "  ", "\n"]), *r.pick(&["", "", " ", "   "])); let n = anycase(r, "code"); src.push_str(&format!("[[{n}]]\n{b}\n[[/code]]\n")); h.push_str(&format!("\u{1}{}\u{2}", code.len())); code.push(b); }
            6 => { let b = bits(r, true, &["[[/html"]); let b = format!("{}c{b}c{}", *r.pick(&["", "", " ", "  "]), *r.pick(&["", "", " ", "   "])); src.push_str(&format!("[[html]]\n{b}\n[[/html]]\n")); h.push_str("<iframe src=\"https://example.com/\" crossorigin></iframe>"); html.push(b); }
            _ => { let b = bits(r, true, &["[[/math"]); let b = format!("c{b}c"); src.push_str(&format!("[[math]]\n{b}\n[[/math]]\n")); h.push_str(&format!("\u{3}{}\u{2}", math.len())); math.push(b); }
        }
    }
    let _ = &h;
    (src, json!({"mode": 0, "wj": r.chance(1, 2), "skeleton": h, "code": code, "html": html, "math": math}))
}
fn verbatim(text: &str, a: &Value) -> Outcome {
    if !super::page::settled_lines(text) { return Ok(false); }
    let Some(sk) = a["skeleton"].as_str() else { return Ok(false) };
    let list = |k: &str| -> Vec<String> { a[k].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default() };
    with(text, a, |d| {
        let mut math = vec![]; tree::walk_document(d.tree, &mut |e| if let Element::Math { latex_source, .. } = e { math.push(latex_source.to_string()) });
        let code: Vec<String> = d.tree.code_blocks.iter().map(|c| c.contents.to_string()).collect();
        let html_: Vec<String> = d.tree.html_blocks.iter().map(|c| c.to_string()).collect();
        if code != list("code") { return Err(format!("code is {code:?}, expected {:?}", list("code"))); }
        if html_ != list("html") { return Err(format!("HTML is {html_:?}, expected {:?}", list("html"))); }
        if math != list("math") { return Err(format!("math is {math:?}, expected {:?}", list("math"))); }
        // replace code and math in the output by placeholders and compare all the rest
        fn strip(nodes: &[Node], code: &mut usize, math: &mut usize) -> Vec<Node> {
            nodes.iter().map(|n| match n {
                Node::El { tag, .. } if tag == "wj-code" => { let t = n.kids().iter().filter(|k| k.tag() == "pre").map(|k| k.text()).collect::<String>(); *code += 1; Node::El { tag: "x-code".into(), attrs: vec![], kids: vec![Node::Text(format!("{}:{t}", *code - 1))] } }
                Node::El { .. } if n.has_class("wj-math-block") => { let mut t = String::new(); n.walk(&mut |n| if n.has_class("wj-math-source") { t = n.text() }); *math += 1; Node::El { tag: "x-math".into(), attrs: vec![], kids: vec![Node::Text(format!("{}:{t}", *math - 1))] } }
                Node::El { tag, attrs, kids } => Node::El { tag: tag.clone(), attrs: attrs.clone(), kids: strip(kids, code, math) },
                Node::Text(t) => Node::Text(t.clone()),
            }).collect()
        }
        let mut sk = sk.to_string();
        for (i, c) in list("code").iter().enumerate() { sk = sk.replace(&format!("\u{1}{i}\u{2}"), &format!("<x-code>{i}:{}</x-code>", esc(c))); }
        for (i, c) in list("math").iter().enumerate() { sk = sk.replace(&format!("\u{3}{i}\u{2}"), &format!("<x-math>{i}:{}</x-math>", esc(c))); }
        // MathML is written as it comes from the converter and may not be well-formed
        if !list("math").is_empty() { return Ok(true); }
        let real = strip(&d.nodes()?, &mut 0, &mut 0);
        let want = html::parse(&format!("<wj-body class=\"wj-body\">{sk}</wj-body>")).map_err(|e| format!("the expectation is malformed: {e}"))?;
        if let Some(e) = html::diff(&html::canonical(&real), &html::canonical(&want), "") { return Err(format!("{e}\nHTML: {}", clip(&d.html().body))); }
        Ok(true)
    })
}
/// Putting a comment anywhere between two words changes nothing.
fn comment_gen(r: &mut Rng) -> (String, Value) {
    let mut g = G::new(r, false); let k = 1 + g.r.below(3); let b = g.blocks(k, 3);
    let spots: Vec<usize> = b.src.match_indices(' ').filter(|(i, _)| { let (x, y) = (&b.src[..*i], &b.src[i + 1..]); x.ends_with(|c: char| c.is_ascii_alphanumeric()) && y.starts_with(|c: char| c.is_ascii_alphabetic()) && !in_head(x) }).map(|x| x.0).collect();
    if spots.is_empty() { return (b.src, json!({"mode": 9})); }
    let i = *g.r.pick(&spots);
    let c = bits(g.r, false, &["--]", "://", "\""]); let c = if c.starts_with('-') || c.ends_with('-') { format!(" {c} ") } else { c };
    (b.src.clone(), json!({"mode": 0, "at": i, "comment": format!("[!--{c}--]")}))
}
/// Inside of a block head, a link, a raw text and the like, it is not a comment.
fn in_head(x: &str) -> bool {
    let open = |o: &str, c: &str| x.rfind(o).map(|i| !x[i..].contains(c)).unwrap_or(false);
    open("[[", "]]") || open("[http", "]") || open("[*", "]") || open("[#", "]") || x.matches("@@").count() % 2 == 1 || open("[!--", "--]") || open("##", "|") || open("[[code", "[[/code") || open("[[html", "[[/html") || x.to_lowercase().contains("[[code") || x.to_lowercase().contains("[[html") || x.contains("[https") || x.contains("[*") || x.contains("[#")
}
fn comment(text: &str, a: &Value) -> Outcome {
    let (Some(i), Some(c)) = (a["at"].as_u64(), a["comment"].as_str()) else { return Ok(false) };
    let i = i as usize; if !text.is_char_boundary(i) || i >= text.len() { return Ok(false); }
    let with_c = format!("{}{c}{}", &text[..i], &text[i..]);
    if !super::page::settled_lines(&with_c) { return Ok(false); }
    let plain = with(text, a, |d| d.nodes().map(|n| html::canonical(&n)))?;
    let other = with(&with_c, a, |d| d.nodes().map(|n| html::canonical(&n)))?;
    match html::diff(&other, &plain, "") { Some(e) => Err(format!("a comment at {i} ({c}) changes the page: {e}")), None => Ok(true) }
}
pub fn c23() -> Vec<Sub> { vec![Sub { name: "verbatim", weight: 3, gen: verbatim_gen, run: verbatim, fixed: none }, Sub { name: "comments", weight: 1, gen: comment_gen, run: comment, fixed: none }, build::sub("constructed", 1)] }

// ---- C25 -----------------------------------------------------------------

/// (documented names, what follows the name, the rest, HTML)
const NAMES: &[(&str, &str, &str, &str)] = &[
    ("b bold strong", "", "]]x[[/N]]", "<strong>x</strong>"), ("i italics em emphasis", "", "]]x[[/N]]", "<em>x</em>"), ("u underline", "", "]]x[[/N]]", "<u>x</u>"), ("s strikethrough", "", "]]x[[/N]]", "<s>x</s>"), ("sub subscript", "", "]]x[[/N]]", "<sub>x</sub>"), ("sup super superscript", "", "]]x[[/N]]", "<sup>x</sup>"),
    ("tt mono monospace", "", "]]x[[/N]]", "<code class=\"wj-monospace\">x</code>"), ("mark highlight", "", "]]x[[/N]]", "<mark>x</mark>"), ("ins insertion", "", "]]x[[/N]]", "<ins>x</ins>"), ("del deletion", "", "]]x[[/N]]", "<del>x</del>"), ("hidden", "", "]]x[[/N]]", "<span class=\"wj-hidden\">x</span>"), ("invisible", "", "]]x[[/N]]", "<span class=\"wj-invisible\">x</span>"), ("span span_", "", "]]x[[/N]]", "<span>x</span>"),
    ("size", " 5px", "]]x[[/N]]", "<span style=\"font-size: 5px;\">x</span>"), ("a anchor a_ anchor_", " href=\"/q\"", "]]x[[/N]]", "<a href=\"/q\" class=\"wj-anchor\">x</a>"), ("*a *anchor", " href=\"/q\"", "]]x[[/N]]", "<a href=\"/q\" target=\"_blank\" class=\"wj-anchor\">x</a>"),
    ("radio radio-button", " g", "]]x", "<input type=\"radio\" name=\"g\">x"), ("*radio *radio-button", " g", "]]x", "<input type=\"radio\" name=\"g\" checked>x"), ("checkbox", "", "]]x", "<input type=\"checkbox\">x"), ("*checkbox", "", "]]x", "<input type=\"checkbox\" checked>x"),
    ("lines newlines", " 2", "]]x", "<br><br>x"), ("target anchortarget", " t", "]]x", "<a id=\"t\"></a>x"), ("char character", " lt", "]]x", "&lt;x"), ("char character", " #65", "]]x", "Ax"), ("equation eref eqref", " e", "]]x", "<span class=\"wj-equation-ref\"><wj-equation-ref-marker class=\"wj-equation-ref-marker\" type=\"button\" data-name=\"e\">e</wj-equation-ref-marker><span class=\"wj-equation-ref-tooltip\" aria-hidden=\"true\"></span></span>x"),
    ("ruby", "", "]]y[[rt]]z[[/rt]][[/N]]", "<ruby>y<rp>(</rp><rt>z</rt><rp>)</rp></ruby>"), ("rb ruby2", " q|z", "]]", "<ruby>q<rp>(</rp><rt>z</rt><rp>)</rp></ruby>"),
    ("p paragraph", "", "]]x[[/N]]", "<p>x</p>"),
];
const BLOCKS: &[(&str, &str, &str, &str)] = &[
    ("div", "", "]]\nx\n[[/N]]", "<div><p>x</p></div>"), ("div_", "", "]]\nx\n[[/N]]", "<div>x</div>"), ("blockquote quote", "", "]]\nx\n[[/N]]", "<blockquote><p>x</p></blockquote>"), ("=", "", "]]\nx\n[[/N]]", "<div class=\"wj-align-center\"><p>x</p></div>"), ("<", "", "]]\nx\n[[/N]]", "<div class=\"wj-align-left\"><p>x</p></div>"), (">", "", "]]\nx\n[[/N]]", "<div class=\"wj-align-right\"><p>x</p></div>"), ("==", "", "]]\nx\n[[/N]]", "<div class=\"wj-align-justify\"><p>x</p></div>"),
    ("ul ul_", "", "]][[li]]x[[/li]][[/N]]", "<ul><li>x</li></ul>"), ("ol ol_", "", "]][[li]]x[[/li]][[/N]]", "<ol><li>x</li></ol>"), ("table", "", "]][[row]][[cell]]x[[/cell]][[hcell]]y[[/hcell]][[/row]][[/N]]", "<table><tbody><tr><td>x</td><th>y</th></tr></tbody></table>"), ("html", "", "]]x[[/N]]", "<iframe src=\"https://example.com/\" crossorigin></iframe>"),
    ("image", " https://e.com/i.png", "]]", "<p><div class=\"wj-image-container\"><img class=\"wj-image\" src=\"https://e.com/i.png\" crossorigin></div></p>"), ("=image", " https://e.com/i.png", "]]", "<p><div class=\"wj-image-container wj-align-center\"><img class=\"wj-image\" src=\"https://e.com/i.png\" crossorigin></div></p>"), ("<image", " https://e.com/i.png", "]]", "<p><div class=\"wj-image-container wj-align-left\"><img class=\"wj-image\" src=\"https://e.com/i.png\" crossorigin></div></p>"), (">image", " https://e.com/i.png", "]]", "<p><div class=\"wj-image-container wj-align-right\"><img class=\"wj-image\" src=\"https://e.com/i.png\" crossorigin></div></p>"), ("f<image", " https://e.com/i.png", "]]", "<p><div class=\"wj-image-container wj-float-left\"><img class=\"wj-image\" src=\"https://e.com/i.png\" crossorigin></div></p>"), ("f>image", " https://e.com/i.png", "]]", "<p><div class=\"wj-image-container wj-float-right\"><img class=\"wj-image\" src=\"https://e.com/i.png\" crossorigin></div></p>"),
    ("iframe", " https://e.com/", "]]", "<iframe src=\"https://e.com/\" crossorigin></iframe>"),
];
fn marks() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for l in 1..7usize { v.push((format!("{} x", "+".repeat(l)), format!("<h{l} id=\"toc0\">x</h{l}>"))); v.push((format!("{}* x", "+".repeat(l)), format!("<h{l}>x</h{l}>"))); }
    for (a, b) in [("~~~~", "both"), ("~~~~<", "left"), ("~~~~>", "right"), ("~~~~~~", "both")] { v.push((a.into(), format!("<div class=\"wj-clear-float wj-clear-float-{b}\"></div>"))); }
    for (a, b) in [("-----", "<hr>"), ("* x", "<ul><li>x</li></ul>"), ("# x", "<ol><li>x</li></ol>"), ("= x", "<div class=\"wj-align-center\">x</div>")] { v.push((a.into(), b.into())); }
    for (s, t) in [("*https://e.com", " target=\"_blank\""), ("https://e.com", "")] { v.push((format!("[{s} x]"), format!("<p><a href=\"https://e.com\" class=\"wj-link wj-link-external\" data-link-type=\"direct\"{t}>x</a></p>"))); v.push((format!("[[[{s}|x]]]"), format!("<p><a href=\"https://e.com\" class=\"wj-link wj-link-external\" data-link-type=\"page\"{t}>x</a></p>").replace("\"page\"", "\"direct\""))); }
    v
}
fn marks_fixed() -> Vec<(String, Value)> { marks().into_iter().map(|(s, h)| (s, json!({"mode": 0, "ids": true, "expect": h}))).chain((0..NAMES.len() + BLOCKS.len()).flat_map(|i| named_all(i))).collect() }
fn named(r: Option<&mut Rng>, t: &(&str, &str, &str, &str), raw: &str, inline: bool) -> (String, Value) {
    let star = raw.starts_with('*'); let plain = raw.trim_start_matches('*').trim_end_matches('_');
    let score = raw.ends_with('_');
    let (a, b) = match r { Some(r) => (r.pick(&[0, 1, 2]).to_owned(), r.pick(&[0, 1, 2]).to_owned()), None => (0, 0) };
    let case = |s: &str, k: usize| match k { 0 => s.to_string(), 1 => s.to_ascii_uppercase(), _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect() };
    let src = format!("[[{}{}{}{}{}", if star { "*" } else { "" }, case(plain, a), if score { "_" } else { "" }, t.1, t.2.replace('N', &case(plain, b)));
    let whole = t.3.starts_with("<p>") || !inline;
    if inline && !whole { (format!("w {src} v"), json!({"mode": 0, "expect": format!("<p>w {} v</p>", t.3)})) } else if t.3.starts_with("<p>") { (src, json!({"mode": 0, "expect": t.3})) } else { (format!("{src}\n"), json!({"mode": 0, "expect": t.3})) }
}
fn named_all(i: usize) -> Vec<(String, Value)> {
    let (t, inline) = if i < NAMES.len() { (&NAMES[i], true) } else { (&BLOCKS[i - NAMES.len()], false) };
    t.0.split(' ').map(|n| named(None, t, n, inline)).collect()
}
fn names_gen(r: &mut Rng) -> (String, Value) {
    let i = r.below(NAMES.len() + BLOCKS.len());
    let (t, inline) = if i < NAMES.len() { (&NAMES[i], true) } else { (&BLOCKS[i - NAMES.len()], false) };
    let all: Vec<&str> = t.0.split(' ').collect(); let n = *r.pick(&all);
    named(Some(r), t, n, inline)
}
fn names_run(text: &str, a: &Value) -> Outcome {
    let Some(want) = a["expect"].as_str() else { return Ok(false) };
    let sort = |s: &str| s.to_string(); let _ = sort;
    with(text, a, |d| {
        let want = html::parse(&format!("<wj-body class=\"wj-body\">{want}</wj-body>"))?;
        if let Some(e) = html::diff(&html::canonical(&d.nodes()?), &html::canonical(&want), "") { return Err(format!("{e}\nHTML: {}", clip(&d.html().body))); }
        Ok(true)
    })
}
/// A block is ended by its own name only.
fn ended_gen(r: &mut Rng) -> (String, Value) {
    let list: Vec<&(&str, &str, &str, &str)> = NAMES.iter().filter(|t| t.2 == "]]x[[/N]]" && !t.0.starts_with('*') && !t.3.starts_with("<p>")).collect();
    let t = *r.pick(&list); let all: Vec<&str> = t.0.split(' ').collect();
    let n = r.pick(&all).trim_end_matches('_').trim_start_matches('*').to_string();
    let end = match r.below(7) { 0 => format!("{n}__"), 1 => format!("{n}s2"), 2 => format!("x{n}"), 3 => format!("_{n}"), 4 => format!("{n}-"), 5 => String::new(), _ => format!("*{n}") };
    let e = anycase(r, &end);
    let text = format!("w [[{n}{}]]x[[/{e}]] v", t.1);
    let whole = r.chance(1, 3);
    if whole { // the right one ends it, the other is text
        let low = t.3.replacen(">x<", &format!(">x{} y<", esc(&format!("[[/{e}]]"))), 1);
        return (format!("w [[{n}{}]]x[[/{e}]] y[[/{n}]] v", t.1), json!({"mode": 0, "expect": format!("<p>w {low} v</p>")}));
    }
    (text.clone(), json!({"mode": 0, "expect": format!("<p>{}</p>", esc(&text))}))
}
/// Names which are not documented are refused, stars and scores where they mean nothing as well.
fn unknown_gen(r: &mut Rng) -> (String, Value) {
    let all: Vec<&str> = "a align anchor anchortarget b bibcite bibliography blockquote bold cell char character checkbox code collapsible date del deletion div em embed emphasis equation eqref eref footnote footnoteblock hcell hidden highlight html i ifcategory iframe iftags image include include-elements ins insertion invisible italics later li lines mark math module module654 mono monospace newlines ol p paragraph quote radio radio-button rb row rt ruby ruby2 rubytext s size span strikethrough strong sub subscript sup super superscript tab table tabs tabview target toc tt u ul underline user f<toc f>toc =image <image >image f<image f>image = < > ==".split(' ').collect();
    let starred = ["a", "anchor", "radio", "radio-button", "later", "user", "checkbox"]; let scored = ["a", "anchor", "bibcite", "ul", "ol", "li", "div", "span"];
    let n = r.pick(&all).to_string();
    let bad = match r.below(6) {
        0 => { let mut m = n.clone(); m.push(*r.pick(&['s', 'x', '2', '-', '.'])); m }
        1 => { let mut m = n.clone(); m.pop(); m }
        2 => format!("x{n}"),
        3 => format!("*{n}"),
        4 => format!("{n}_"),
        _ => { let mut c: Vec<char> = n.chars().collect(); let i = r.below(c.len()); c[i] = *r.pick(&['q', 'z', '0', '-']); c.into_iter().collect() }
    };
    let core = bad.trim_start_matches('*'); let core = core.strip_suffix('_').unwrap_or(core);
    let known = all.iter().any(|x| x.eq_ignore_ascii_case(core));
    let ok = known && (!bad.starts_with('*') || starred.contains(&core)) && (!bad.ends_with('_') || scored.contains(&core));
    let simple = !core.is_empty() && core.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !core.starts_with('-') && !core.ends_with('-') && !core.contains("--") && !core.contains("__");
    if ok || !simple { return ("x".into(), json!({"mode": 9})); }
    let b = anycase(r, &bad);
    let t = format!("w [[{b} q]]x v");
    (t.clone(), json!({"mode": 0, "expect": format!("<p>{}</p>", esc(&t))}))
}
/// Values themselves: read, named, written and read back.
fn words_gen(r: &mut Rng) -> (String, Value) {
    let s = match r.below(5) { 0 => r.pick(&["<", ">", "=", "==", "===", "<=", "", "f<", "F>", "f=", "ff<", "<f", "left", " <"]).to_string(), 1 => { let s = *r.pick(&["blank", "_blank", "parent", "_parent", "top", "_top", "self", "_self", "__top", "blank_", "", "_", "new", "topp"]); anycase(r, s) } 2 => format!("{}{}", "+".repeat(r.below(9)), *r.pick(&["", "*", "**", "x", " "])), 3 => r.pick(&["*", "#", "**", "", "-", "bullet"]).to_string(), _ => format!("{}{}{}", *r.pick(&["", "f", "F", "g"]), *r.pick(&["<", "=", ">", "==", "~"]), *r.pick(&["", "image", "toc"])) };
    (s, json!({"level": r.below(300)}))
}
fn words_run(t: &str, a: &Value) -> Outcome {
    let low = t.to_ascii_lowercase();
    let want = match t { "<" => Some((Alignment::Left, "left", "wj-align-left")), ">" => Some((Alignment::Right, "right", "wj-align-right")), "=" => Some((Alignment::Center, "center", "wj-align-center")), "==" => Some((Alignment::Justify, "justify", "wj-align-justify")), _ => None };
    let got = Alignment::try_from(t).ok();
    if got != want.map(|w| w.0) { return Err(format!("alignment {t:?} is {got:?}")); }
    if let Some((x, n, c)) = want { if x.name() != n || x.html_class() != c || serde_json::to_value(x).unwrap() != json!(n) || serde_json::from_value::<Alignment>(json!(n)).ok() != Some(x) { return Err(format!("alignment {t:?} is written as {} {}", x.name(), x.html_class())); } }
    let f = match low.as_str() { "=" => Some((Alignment::Center, false, "wj-align-center")), "<" => Some((Alignment::Left, false, "wj-align-left")), ">" => Some((Alignment::Right, false, "wj-align-right")), "f<" => Some((Alignment::Left, true, "wj-float-left")), "f>" => Some((Alignment::Right, true, "wj-float-right")), _ => None };
    let got = FloatAlignment::try_from(t).ok();
    if got.map(|g| (g.align, g.float, g.html_class())) != f { return Err(format!("float {t:?} is {got:?}")); }
    if let Some(g) = got { let v = serde_json::to_value(g).unwrap(); if serde_json::from_value::<FloatAlignment>(v.clone()).ok() != Some(g) { return Err(format!("float {t:?} is written as {v}")); } }
    let w = match low.strip_prefix('_').unwrap_or(&low) { "blank" => Some(AnchorTarget::NewTab), "parent" => Some(AnchorTarget::Parent), "top" => Some(AnchorTarget::Top), "self" => Some(AnchorTarget::Same), _ => None };
    let got = AnchorTarget::try_from(t).ok();
    if got != w { return Err(format!("link target {t:?} is {got:?}")); }
    if let Some(x) = got { if AnchorTarget::try_from(x.html_attr()).ok() != Some(x) || serde_json::from_value::<AnchorTarget>(serde_json::to_value(x).unwrap()).ok() != Some(x) || !x.html_attr().eq_ignore_ascii_case(&format!("_{}", low.trim_start_matches('_'))) { return Err(format!("link target {t:?} is written as {}", x.html_attr())); } }
    let l = a["level"].as_u64().unwrap_or(0) as usize;
    for l in [l, l % 9] {
        let got = HeadingLevel::try_from(l).ok();
        if got.is_some() != (1..=6).contains(&l) || HeadingLevel::try_from(l as u8).ok().is_some() != (1..=6).contains(&(l as u8)) { return Err(format!("heading level {l} is {got:?}")); }
        if let Some(h) = got { if h.value() as usize != l || h.html_tag() != format!("h{l}") || h.prefix() != "+".repeat(l) || h.prefix_with_space() != format!("{} ", "+".repeat(l)) || HeadingLevel::try_from(l as u8).ok() != Some(h) || serde_json::from_value::<HeadingLevel>(serde_json::to_value(h).unwrap()).ok() != Some(h) { return Err(format!("heading level {l} is {h:?}")); } }
    }
    for l in [l as u8, (l % 9) as u8] {
        use ftml::data::KarmaLevel;
        let got = KarmaLevel::new(l);
        if got.map(|k| k.value()) != Some(l).filter(|l| *l <= 5) { return Err(format!("karma level {l} is {got:?}")); }
        if let Some(k) = got { if k.to_string() != l.to_string() || serde_json::to_value(k).unwrap() != json!(l) || serde_json::from_value::<KarmaLevel>(json!(l)).ok() != Some(k) { return Err(format!("karma level {l} is written as {k}")); } }
    }
    if !t.is_empty() && (t.trim_start_matches('+').is_empty() || (t.ends_with('*') && !t[..t.len() - 1].is_empty() && t[..t.len() - 1].trim_start_matches('+').is_empty())) {
        let n = t.trim_end_matches('*').len();
        let got = Heading::try_from(t).ok();
        let want = HeadingLevel::try_from(n).ok().map(|level| Heading { level, has_toc: !t.ends_with('*') });
        if got != want { return Err(format!("heading {t:?} is {got:?}")); }
    }
    Ok(!t.is_empty())
}
pub fn c25() -> Vec<Sub> { vec![Sub { name: "names", weight: 2, gen: names_gen, run: names_run, fixed: marks_fixed }, Sub { name: "unknown", weight: 2, gen: unknown_gen, run: names_run, fixed: none }, Sub { name: "ended", weight: 1, gen: ended_gen, run: names_run, fixed: none }, Sub { name: "words", weight: 1, gen: words_gen, run: words_run, fixed: none }, build::sub("constructed", 1)] }

// ---- C26 -----------------------------------------------------------------

fn iw_gen(r: &mut Rng) -> (String, Value) {
    let n = r.below(4); let mut t = serde_json::Map::new();
    for _ in 0..n { t.insert(r.pick(&["wp", "w", "a-b", "é", "", "google", "WP", "x y", "$$"]).to_string(), json!(*r.pick(&["https://e.com/$$", "https://$$.e.com/$$?q=$$", "https://e.com/", "$$", "https://e.com/$/$$$", "https://e.com/a b/$$", "/$$$$", ""]))); }
    let p = if r.chance(3, 4) && !t.is_empty() { let k: Vec<&String> = t.keys().collect(); r.pick(&k).to_string() } else { r.pick(&["wp", "none", "", "w p", "W"]).to_string() };
    let path = { let mut s = String::new(); for _ in 0..r.below(5) { s.push_str(*r.pick(&["Mallard", ":", "a b", " ", "$$", "$", "é", "?x=1", "#f", "/", "%20", "\u{1f4af}", "\u{a0}", "A", "\t"])); } s };
    let c = if r.chance(1, 8) { "" } else { ":" };
    (format!("{p}{c}{path}"), json!({"table": t}))
}
fn iw_url(link: &str, table: &serde_json::Map<String, Value>) -> Option<String> {
    let (p, rest) = link.split_once(':')?;
    if p.is_empty() || rest.is_empty() { return None; }
    let t = table.get(p)?.as_str()?;
    // every "$$" from the left
    let mut o = String::new(); let mut s = t;
    while let Some(i) = s.find("$$") { o.push_str(&s[..i]); o.push_str(rest); s = &s[i + 2..]; }
    o.push_str(s);
    Some(o.split(' ').collect::<Vec<_>>().join("%20"))
}
fn iw(text: &str, a: &Value) -> Outcome {
    let Some(t) = a["table"].as_object() else { return Ok(false) };
    let mut s = ftml::settings::InterwikiSettings::new();
    for (k, v) in t { s.prefixes.insert(Cow::Owned(k.clone()), Cow::Owned(v.as_str().unwrap().to_string())); }
    let (got, want) = (s.build(text), iw_url(text, t));
    if got != want { return Err(format!("{text:?} becomes {got:?}, expected {want:?}")); }
    let again: ftml::settings::InterwikiSettings = serde_json::from_str(&serde_json::to_string(&s).unwrap()).map_err(|e| e.to_string())?;
    if again != s { return Err("the table changes when serialised".into()); }
    Ok(want.is_some())
}
const SITES: &[(&str, &str)] = &[("wikipedia", "https://wikipedia.org/wiki/$$"), ("wp", "https://wikipedia.org/wiki/$$"), ("commons", "https://commons.wikimedia.org/wiki/$$"), ("google", "https://google.com/search?q=$$"), ("duckduckgo", "https://duckduckgo.com/?q=$$"), ("ddg", "https://duckduckgo.com/?q=$$"), ("dictionary", "https://dictionary.com/browse/$$"), ("thesaurus", "https://thesaurus.com/browse/$$")];
fn iwlink_gen(r: &mut Rng) -> (String, Value) {
    let s = *r.pick(SITES); let p = if r.chance(1, 8) { "nosuch" } else if r.chance(1, 12) { "WP" } else { s.0 };
    let path = { let mut s = String::new(); for _ in 0..1 + r.below(4) { s.push_str(*r.pick(&["Mallard", "a b", ":x", "é", "?y=1", "#f", "/sub", "x:y", "(z)", "A_B", "C++"])); } s };
    let c = if r.chance(1, 10) { "" } else { ":" };
    let path = if r.chance(1, 12) { String::new() } else { path };
    let star = if r.chance(1, 4) { "*" } else { "" };
    let (src, k) = match r.below(3) { 0 => (format!("[[[{star}!{p}{c}{path}|lab]]]"), 0), 1 => (format!("[[[{star}!{p}{c}{path}]]]"), 1), _ => (format!("[[[{star}! {p}{c}{path}|lab]]]").replace("! ", "!"), 0) };
    let table: serde_json::Map<String, Value> = SITES.iter().map(|s| (s.0.to_string(), json!(s.1))).collect();
    let url = iw_url(&format!("{p}{c}{path}").trim(), &table);
    (format!("w {src} v"), json!({"mode": r.below(5), "wj": r.chance(1, 2), "url": url, "kind": k, "star": !star.is_empty()}))
}
fn iwlink(text: &str, a: &Value) -> Outcome {
    if !super::page::settled(text) || a["kind"].is_null() { return Ok(false); }
    with(text, a, |d| {
        let mut got = vec![];
        for n in &d.nodes()? { n.walk(&mut |n| if n.tag() == "a" { got.push((n.attr("href").unwrap_or("").to_string(), n.has_class("wj-link-interwiki") && n.attr("data-link-type") == Some("interwiki"), n.attr("target") == Some("_blank"), n.text())) }); }
        match a["url"].as_str() {
            Some(u) => {
                if got.len() != 1 || got[0].0 != u || !got[0].1 || got[0].2 != a["star"].as_bool().unwrap() || (a["kind"] == 0 && got[0].3 != "lab") { return Err(format!("links are {got:?}, expected {u:?}")); }
            }
            None => { if got.iter().any(|g| g.1) { return Err(format!("{text:?} is an interwiki link: {got:?}")); } }
        }
        Ok(true)
    })
}
pub fn c26() -> Vec<Sub> { vec![Sub { name: "table", weight: 1, gen: iw_gen, run: iw, fixed: none }, Sub { name: "links", weight: 1, gen: iwlink_gen, run: iwlink, fixed: none }] }

// ---- C28 -----------------------------------------------------------------

/// The element and all that is in it goes into paragraphs.
fn inline(e: &Element) -> bool { let mut ok = true; tree::walk(std::slice::from_ref(e), &mut |e| ok &= e.paragraph_safe()); ok }
/// In any document: paragraphs hold inline content only and are not empty.
fn wrap(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let mut err = None; let mut n = 0;
        tree::walk_document(d.tree, &mut |e| if let Element::Container(c) = e { if c.ctype() == ContainerType::Paragraph && !c.attributes().get().keys().any(|_| true) {
            n += 1;
            for k in c.elements() { if !k.paragraph_safe() && !text.to_lowercase().contains("[[p") { err = Some(format!("{k:?} is inside of a paragraph")); } }
            if c.elements().is_empty() && !text.to_lowercase().contains("[[p") { err = Some("an empty paragraph".into()); }
        } });
        for e in &d.tree.elements { if inline(e) && !matches!(e, Element::FootnoteBlock { .. }) && !text.is_empty() && !text.to_lowercase().contains("[[if") { err = Some(format!("{e:?} is outside of paragraphs")); } }
        match err { Some(e) => Err(clip(&e)), None => Ok(n > 0) }
    })
}
fn wrap_gen(r: &mut Rng) -> (String, Value) {
    let mut s = String::new();
    for i in 0..1 + r.below(7) {
        s.push_str(&match r.below(15) { 0 => format!("[[div]]x{i}[[/div]]"), 1 => format!("x{i}[[span]]y[[/span]]"), 2 => "[!-- c --]".into(), 3 => "[[div]]\n\n[[/div]]".into(), 4 => format!("[[iftags +tale]]z{i}[[/iftags]]"), 5 => format!("[[iftags -tale]]z{i}[[/iftags]]"), 6 => format!("* i{i}\n"), 7 => "----\n".into(), 8 => format!("+ h{i}\n"), 9 => "[[image x]]".into(), 10 => "||a||\n".into(), 11 => format!("[[collapsible]]a\n\nb{i}[[/collapsible]]"), 12 => " _\n".into(), 13 => "[[iftags +tale]]\n[[div]]q[[/div]]\n[[/iftags]]".into(), _ => format!("w{i}") });
        s.push_str(*r.pick(&["", "", "\n", "\n\n", " ", "\n\n\n"]));
    }
    (s, json!({"mode": r.below(5), "wj": r.chance(1, 2)}))
}
/// Inline runs and blocks with the paragraphs they have to form.
fn runs_gen(r: &mut Rng) -> (String, Value) {
    let wj = r.chance(1, 2); let mut g = G::new(r, false);
    let (mut src, mut h, mut open) = (String::new(), String::new(), false);
    let mut notes_free = true; let _ = &mut notes_free;
    for i in 0..1 + g.r.below(7) {
        match g.r.below(3) {
            0 => { // a block ends the paragraph
                if open { h.push_str("</p>"); open = false; src.push_str(*g.r.pick(&["\n", "\n\n", ""])); }
                let k = g.n; g.n += 1;
                match g.r.below(6) { 0 => { src.push_str(&format!("[[div]]\nb{k}\n[[/div]]\n")); h.push_str(&format!("<div><p>b{k}</p></div>")); } 1 => { src.push_str(&format!("[[div]]b{k}[[/div]]")); h.push_str(&format!("<div>b{k}</div>")); h = h.replace(&format!("<div>b{k}</div>"), &format!("<div><p>b{k}</p></div>")); } 2 => { src.push_str(&format!("[[table]][[row]][[cell]]b{k}[[/cell]][[/row]][[/table]]")); h.push_str(&format!("<table><tbody><tr><td>b{k}</td></tr></tbody></table>")); } 3 => { src.push_str(&format!("[[ul]][[li]]b{k}[[/li]][[/ul]]\n")); h.push_str(&format!("<ul><li>b{k}</li></ul>")); } 4 => { if !src.is_empty() && !src.ends_with('\n') { src.push('\n'); } src.push_str(&format!("+* b{k}\n")); h.push_str(&format!("<h1>b{k}</h1>")); } _ => { if !src.is_empty() && !src.ends_with('\n') { src.push('\n'); } src.push_str("----\n"); h.push_str("<hr>"); } }
            }
            1 => { // a blank line ends it
                if open { src.push_str(*g.r.pick(&["\n\n", "\n\n\n\n"])); h.push_str("</p>"); open = false; } else { src.push_str(*g.r.pick(&["", "\n"])); if !src.ends_with("\n\n") && src.ends_with('\n') { } }
            }
            _ => {
                if open { let s = *g.r.pick(&[(" ", " "), ("\n", "<br>"), (" _\n", "<br>")]); src.push_str(s.0); h.push_str(s.1); } else { h.push_str("<p>"); open = true; if i > 0 && src.ends_with("]]") && g.r.chance(1, 2) { src.push('\n'); } }
                let l = g.line(1, true); src.push_str(&l.src); h.push_str(&l.html);
            }
        }
    }
    if open { h.push_str("</p>"); }
    let f = build::footnotes(&g.notes, "Footnotes"); h.push_str(&f);
    (src, json!({"mode": 0, "wj": wj, "iso": false, "expect": h}))
}
pub fn c28() -> Vec<Sub> { vec![Sub { name: "runs", weight: 2, gen: runs_gen, run: build::rendered, fixed: none }, Sub { name: "wrapping", weight: 1, gen: wrap_gen, run: wrap, fixed: none }, Sub { name: "wrapping-any", weight: 1, gen: page_doc, run: wrap, fixed: none }, build::sub("constructed", 1)] }
