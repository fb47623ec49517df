//! Constructive documents: wikitext generated together with the HTML and the
//! plain text it has to produce. The expectation comes from the
//! documentation of each construct and never from the parser.
use crate::{case::*, env::{self, *}, gen as fragments, html, rng::Rng};
use serde_json::{json, Value};

#[derive(Clone, Default)]
pub struct Piece { pub src: String, pub html: String, pub plain: String }
impl Piece {
    pub fn new(src: impl Into<String>, html: impl Into<String>, plain: impl Into<String>) -> Piece { Piece { src: src.into(), html: html.into(), plain: plain.into() } }
    fn add(&mut self, p: Piece) { self.src.push_str(&p.src); self.html.push_str(&p.html); self.plain.push_str(&p.plain); }
}
pub fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#39;") }

/// Letters of a name in random case.
pub fn anycase(r: &mut Rng, s: &str) -> String { if r.chance(2, 3) { s.to_string() } else { s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() } }

pub struct G<'r> {
    pub r: &'r mut Rng, pub n: usize, pub iso: bool,
    pub notes: Vec<String>, pub toc: Vec<(usize, String)>, pub code: Vec<String>, pub html: Vec<String>,
    busy: Vec<&'static str>, in_note: bool, in_head: bool, in_cell: bool, link: bool,
}

const CONTAINERS: &[(&str, &[&str], &str, &str)] = &[
    ("b", &["b", "bold", "strong"], "strong", ""), ("i", &["i", "italics", "em", "emphasis"], "em", ""), ("u", &["u", "underline"], "u", ""), ("s", &["s", "strikethrough"], "s", ""),
    ("sub", &["sub", "subscript"], "sub", ""), ("sup", &["sup", "super", "superscript"], "sup", ""), ("tt", &["tt", "mono", "monospace"], "code", "wj-monospace"), ("mark", &["mark", "highlight"], "mark", ""),
    ("ins", &["ins", "insertion"], "ins", ""), ("del", &["del", "deletion"], "del", ""), ("span", &["span"], "span", ""), ("span_", &["span_"], "span", ""), ("hidden", &["hidden"], "span", "wj-hidden"), ("invisible", &["invisible"], "span", "wj-invisible"),
];
const SIGNS: &[(&str, &str, &str, &str)] = &[("**", "**", "strong", ""), ("//", "//", "em", ""), ("__", "__", "u", ""), ("^^", "^^", "sup", ""), (",,", ",,", "sub", ""), ("--", "--", "s", ""), ("{{", "}}", "code", "wj-monospace")];

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, iso: bool) -> G<'r> { G { r, n: 0, iso, notes: vec![], toc: vec![], code: vec![], html: vec![], busy: vec![], in_note: false, in_head: false, in_cell: false, link: false } }
    pub fn word(&mut self) -> String {
        self.n += 1;
        format!("{}{}", *self.r.pick(&["w", "x<y", "a&b", "it's", "50%", "é", "日本", "(p)", "a.b", "semi;", "q?", "T", "1", "u=v", "m+n", "\u{1f4af}"]), self.n)
    }
    pub fn words(&mut self) -> Piece {
        let mut v = vec![]; for _ in 0..1 + self.r.below(3) { v.push(self.word()); }
        let t = v.join(" "); Piece::new(t.clone(), esc(&t), t)
    }
    /// Attributes: (source, html) with the class the element has anyway.
    fn attrs(&mut self, own: &str) -> (String, String) {
        let (mut s, mut h, mut class) = (String::new(), String::new(), own.to_string());
        let mut used: Vec<&str> = vec![];
        if self.r.chance(1, 2) { for _ in 0..self.r.below(4) {
            let (k, v, kind) = *self.r.pick(&[("class", "c1 c2", 0), ("title", "t <&> 'x'", 1), ("style", "color: red", 1), ("data-v-1", "d", 1), ("aria-label", "l", 1), ("id", "own id2", 2), ("onclick", "bad()", 3), ("hidden", "true", 4), ("itemscope", "no", 3), ("data-x_y", "z", 3), ("onmouseover", "x", 3), ("dir", "ltr", 1), ("lang", "", 1)]);
            if used.contains(&k) { continue; }
            used.push(k);
            let key = if k.contains('-') { k.to_string() } else { anycase(self.r, k) };
            s.push_str(&format!(" {key}=\"{v}\""));
            match kind {
                0 => { if !class.is_empty() { class.push(' '); } class.push_str(v); }
                1 => h.push_str(&format!(" {k}=\"{}\"", esc(v))),
                2 => h.push_str(&if self.iso { " id=\"u-own u-id2\"".to_string() } else { " id=\"own id2\"".to_string() }),
                4 => h.push_str(&format!(" {k}")),
                _ => {}
            }
        } }
        if !class.is_empty() { h.push_str(&format!(" class=\"{class}\"")); }
        (s, h)
    }
    /// A block without body, followed directly by a word (whether spaces after a head count is not stated).
    fn headed(&mut self, src: String, html: impl Into<String>, plain: impl Into<String>) -> Piece {
        let mut p = Piece::new(src, html, plain); let w = self.word();
        
        p.add(Piece::new(w.clone(), esc(&w), w)); p
    }
    /// One inline item, without line ends.
    pub fn item(&mut self, depth: usize) -> Piece {
        let pick = self.r.below(if depth == 0 { 9 } else { 20 });
        match pick {
            0..=4 => self.words(),
            5 => { let w = self.word(); let w = format!("{w} **x** [[y]] <b> z"); if self.in_cell || self.busy.contains(&"@@") { return self.words(); } Piece::new(format!("@@{w}@@"), format!("<span class=\"wj-raw\">{}</span>", esc(&w)), w) }
            6 => { let w = self.word(); Piece::new(format!("[!-- {w} **c** --]k{}", self.n), format!("k{}", self.n), format!("k{}", self.n)) }
            7 if !self.in_note && !self.link => {
                let n = self.n; self.n += 1;
                match self.r.below(6) {
                    0 => Piece::new(format!("[[[page {n}]]]"), format!("<a href=\"/page-{n}\" class=\"wj-link wj-link-internal\" data-link-type=\"page\">page {n}</a>"), format!("page {n}")),
                    1 => Piece::new(format!("[[[cat:page{n}|lab & {n}]]]"), format!("<a href=\"/cat:page{n}\" class=\"wj-link wj-link-internal\" data-link-type=\"page\">lab &amp; {n}</a>"), format!("lab & {n}")),
                    2 => Piece::new(format!("[https://e.com/{n}?a=1&b lab {n}]"), format!("<a href=\"https://e.com/{n}?a=1&amp;b\" class=\"wj-link wj-link-external\" data-link-type=\"direct\">lab {n}</a>"), format!("lab {n}")),
                    3 => Piece::new(format!("[*/p{n}/x lab {n}]"), format!("<a href=\"/p{n}/x\" class=\"wj-link wj-link-internal\" data-link-type=\"direct\" target=\"_blank\">lab {n}</a>"), format!("lab {n}")),
                    4 => Piece::new(format!("[#Top-{n} lab {n}]"), format!("<a href=\"#top-{n}\" class=\"wj-link wj-link-anchor\" data-link-type=\"anchor\">lab {n}</a>"), format!("lab {n}")),
                    _ => Piece::new(format!("[[[!wp:Art_{n}|lab {n}]]]"), format!("<a href=\"https://wikipedia.org/wiki/Art_{n}\" class=\"wj-link wj-link-external wj-link-interwiki\" data-link-type=\"interwiki\">lab {n}</a>"), format!("lab {n}")),
                }
            }
            8 => match self.r.below(7) {
                0 => { let n = self.n; self.n += 1; Piece::new(format!("[[# an{n}]]"), format!("<a id=\"{}an{n}\"></a>", if self.iso { "u-" } else { "" }), "") }
                1 => { let n = anycase(self.r, "char"); self.headed(format!("[[{n} amp]]"), "&amp;", "&") }
                2 => { let n = anycase(self.r, "character"); self.headed(format!("[[{n} #x3c]]"), "&lt;", "<") }
                3 if !self.in_head && !self.link => { let (s, h) = self.attrs(""); let b = anycase(self.r, "checkbox"); self.headed(format!("[[*{b}{s}]]"), format!("<input type=\"checkbox\" checked{h}>"), "") }
                4 if !self.in_head && !self.link => { let (s, h) = self.attrs(""); let b = if self.r.chance(1, 2) { "radio" } else { "radio-button" }; self.headed(format!("[[{b} grp{s}]]"), format!("<input name=\"grp\" type=\"radio\"{h}>"), "") }
                5 => Piece::new("{$undefined}", "{$undefined}", "{$undefined}"),
                _ => { let n = self.n; self.n += 1; self.headed(format!("[[user U {n}]]"), format!("<span class=\"wj-user-info\"><a class=\"wj-user-info-link\" href=\"/user:info/U {n}\"><span class=\"wj-user-info-name\">U {n}</span></a></span>"), format!("U {n}")) }
            },
            9..=12 => {
                let (o, c, tag, class) = *self.r.pick(SIGNS);
                if self.busy.contains(&o) || (o == "--" && self.busy.contains(&"[!--")) { return self.words(); }
                self.busy.push(o);
                let b = self.line(depth.saturating_sub(1), true);
                self.busy.pop();
                let cl = if class.is_empty() { String::new() } else { format!(" class=\"{class}\"") };
                Piece::new(format!("{o}{}{c}", b.src), format!("<{tag}{cl}>{}</{tag}>", b.html), b.plain)
            }
            13..=15 => {
                let (key, names, tag, class) = *self.r.pick(CONTAINERS);
                if self.busy.contains(&key) { return self.words(); }
                let (s, h) = if key == "span_" { (String::new(), String::new()) } else { self.attrs(class) };
                let h = if key == "span_" && !class.is_empty() { format!(" class=\"{class}\"") } else { h };
                let raw = *self.r.pick(names);
                let (a, b) = (anycase(self.r, raw), anycase(self.r, raw.trim_end_matches('_')));
                self.busy.push(key);
                let body = self.line(depth.saturating_sub(1), true);
                self.busy.pop();
                let plain = match key { "hidden" => String::new(), "invisible" => " ".repeat(body.plain.chars().count()), _ => body.plain };
                Piece::new(format!("[[{a}{s}]]{}[[/{b}]]", body.src), format!("<{tag}{h}>{}</{tag}>", body.html), plain)
            }
            16 => {
                if self.busy.contains(&"##") { return self.words(); }
                self.busy.push("##");
                let (c, css) = *self.r.pick(&[("red", "red"), ("00ff00", "#00ff00"), ("ABC", "#ABC"), ("#123456", "#123456"), ("purple", "purple")]);
                let b = self.line(depth.saturating_sub(1), true);
                self.busy.pop();
                Piece::new(format!("##{c}|{}##", b.src), format!("<span style=\"color: {css};\">{}</span>", b.html), b.plain)
            }
            17 if !self.in_note && !self.in_head && !self.link => {
                self.in_note = true; let keep = std::mem::take(&mut self.busy);
                let b = self.line(depth.saturating_sub(1), false);
                self.in_note = false; self.busy = keep;
                self.notes.push(b.html.clone());
                let n = self.notes.len();
                Piece::new(format!("[[{}]]{}[[/footnote]]", anycase(self.r, "footnote"), b.src), format!("<span class=\"wj-footnote-ref\"><wj-footnote-ref-marker class=\"wj-footnote-ref-marker\" role=\"link\" aria-label=\"Footnote {n}.\" data-id=\"{n}\">{n}</wj-footnote-ref-marker><span class=\"wj-footnote-ref-tooltip\" aria-hidden=\"true\"><span class=\"wj-footnote-ref-tooltip-label\">Footnote {n}.</span><span class=\"wj-footnote-ref-contents\">{}</span></span></span>", b.html), "")
            }
            18 => {
                let (yes, cond) = *self.r.pick(&[(true, "iftags +tale"), (true, "iftags tale zzz"), (false, "iftags -tale"), (false, "iftags +tale +zzz"), (true, "iftags -zzz _cc"), (true, "ifcategory _default x"), (false, "ifcategory y"), (true, "IFTAGS  +tale   -q"), (false, "ifcategory -_default")]);
                let (a, b, c, d) = (self.notes.clone(), self.toc.clone(), self.code.clone(), self.html.clone());
                let body = self.line(depth.saturating_sub(1), true);
                let end = if cond.to_lowercase().starts_with("iftags") { "iftags" } else { "ifcategory" };
                if yes { Piece::new(format!("[[{cond}]]{}[[/{end}]]", body.src), body.html, body.plain) }
                else { self.notes = a; self.toc = b; self.code = c; self.html = d; Piece::new(format!("[[{cond}]]{}[[/{end}]]", body.src), "", "") }
            }
            _ => {
                let b = self.words(); let t = self.words();
                match self.r.below(4) {
                    0 if !self.busy.contains(&"ruby") => Piece::new(format!("[[ruby]]{}[[rt]]{}[[/rt]][[/ruby]]", b.src, t.src), format!("<ruby>{}<rp>(</rp><rt>{}</rt><rp>)</rp></ruby>", b.html, t.html), format!("{}({})", b.plain, t.plain)),
                    1 if !self.link => { let (s, h) = self.attrs("wj-anchor"); let (st, ht) = if self.r.chance(1, 2) { ("*", " target=\"_blank\"") } else { ("", "") }; self.link = true; let b = self.line(depth.saturating_sub(1), true); self.link = false; Piece::new(format!("[[{st}a href=\"page {}\"{s}]]{}[[/a]]", self.n, b.src), format!("<a href=\"/page-{}\"{ht}{h}>{}</a>", self.n, b.html), b.plain) }
                    2 => Piece::new(format!("[[size 12px]]{}[[/size]]", b.src), format!("<span style=\"font-size: 12px;\">{}</span>", b.html), b.plain),
                    _ => { let n = self.r.below(3) + 1; if self.in_head || self.in_cell { return b; } self.headed(format!("[[lines {n}]]"), "<br>".repeat(n), "") }
                }
            }
        }
    }
    /// Items in one line, separated by single spaces; tight lines begin and end with a word.
    pub fn line(&mut self, depth: usize, tight: bool) -> Piece {
        let mut p = Piece::default();
        let k = 1 + self.r.below(3);
        if tight { p = self.words(); }
        for i in 0..k {
            if i > 0 || tight { p.add(Piece::new(" ", " ", " ")); }
            let x = self.item(depth); p.add(x);
        }
        if tight { p.add(Piece::new(" ", " ", " ")); let x = self.words(); p.add(x); }
        p
    }
    fn paragraph(&mut self, depth: usize) -> Piece {
        let mut p = self.line(depth, true);
        for _ in 0..self.r.below(3) { if self.r.chance(1, 2) { let sep = *self.r.pick(&["\n", "\n", " _\n"]); p.add(Piece::new(sep, "<br>", "\n")); let l = self.line(depth, true); p.add(l); } }
        p
    }
    /// Some blocks with what stands between them; ends with a line end.
    pub fn blocks(&mut self, depth: usize, max: usize) -> Piece {
        let mut p = Piece::default();
        let mut para = false; // an unfinished paragraph precedes
        let mut last = ' ';
        for i in 0..1 + self.r.below(max) {
            if self.r.chance(2, 5) || depth == 0 {
                let b = self.paragraph(depth.min(2));
                if i > 0 { p.src.push_str(if para { "\n\n" } else if self.r.chance(1, 2) { "\n" } else { "" }); }
                p.add(Piece::new(b.src, format!("<p>{}</p>", b.html), b.plain));
                para = true; last = ' ';
            } else {
                let b = self.block(depth - 1);
                // neighbours of one line-based kind would be one element
                let kind = b.src.trim_start_matches(' ').chars().next().unwrap_or(' ');
                let kind = if kind == '#' { '*' } else { kind };
                if i > 0 && kind == last && kind != '[' && kind != '+' { p.add(Piece::new("[[div]]\n[[/div]]\n", "<div></div>", "")); }
                last = kind;
                if i > 0 && para { p.src.push_str(if self.r.chance(1, 2) { "\n" } else { "\n\n" }); }
                p.add(b);
                para = false;
                if self.r.chance(1, 3) { p.src.push('\n'); }
            }
        }
        if para { p.src.push('\n'); }
        p
    }
    pub fn heading(&mut self) -> Piece {
        let level = 1 + self.r.below(6); let star = self.r.chance(1, 4);
        self.in_head = true; self.link = true; let b = self.line(1, true); self.in_head = false; self.link = false;
        let id = if star { String::new() } else { self.toc.push((level, b.plain.clone())); format!(" id=\"toc{}\"", self.toc.len() - 1) };
        Piece::new(format!("{}{} {}\n", "+".repeat(level), if star { "*" } else { "" }, b.src), format!("<h{level}{id}>{}</h{level}>", b.html), b.plain)
    }
    /// One block element; its source starts at a line start and ends with a line end.
    fn block(&mut self, depth: usize) -> Piece {
        let wrap = |names: &[&str], r: &mut Rng| { let n = *r.pick(names); (anycase(r, n), anycase(r, n.trim_end_matches('_'))) };
        match self.r.below(17) {
            0 | 1 => {
                let (a, z) = wrap(&["div", "div"], self.r); let (s, h) = self.attrs("");
                let b = self.blocks(depth, 3);
                Piece::new(format!("[[{a}{s}]]\n{}[[/{z}]]\n", b.src), format!("<div{h}>{}</div>", b.html), b.plain)
            }
            2 => { let (a, z) = wrap(&["blockquote", "quote"], self.r); let (s, h) = self.attrs(""); let b = self.blocks(depth, 2); Piece::new(format!("[[{a}{s}]]\n{}[[/{z}]]\n", b.src), format!("<blockquote{h}>{}</blockquote>", b.html), b.plain) }
            3 => { let (m, c) = *self.r.pick(&[("=", "center"), ("<", "left"), (">", "right"), ("==", "justify")]); let b = self.blocks(depth, 2); Piece::new(format!("[[{m}]]\n{}[[/{m}]]\n", b.src), format!("<div class=\"wj-align-{c}\">{}</div>", b.html), b.plain) }
            4 => {
                let (s, h) = self.attrs("wj-collapsible");
                let (mut s, mut h) = (s, h);
                let (mut show, mut hide) = ("+ open block".to_string(), "- hide block".to_string());
                if self.r.chance(1, 2) { show = format!("S{} <", self.n); s.push_str(&format!(" {}=\"{show}\"", anycase(self.r, "show"))); }
                if self.r.chance(1, 2) { hide = format!("H{}", self.n); s.push_str(&format!(" {}=\"{hide}\"", anycase(self.r, "hide"))); }
                if self.r.chance(1, 2) { let (v, open) = *self.r.pick(&[("no", true), ("YES", false), ("false", true), (" f ", true), ("1", false), ("True", false), ("0", true)]); s.push_str(&format!(" folded=\"{v}\"")); if open { h.push_str(" open"); } }
                let (mut top, mut bottom) = (true, false);
                if self.r.chance(1, 2) { let (v, t, b) = *self.r.pick(&[("top", true, false), ("Bottom", false, true), ("both", true, true), ("neither", false, false), ("NONE", false, false)]); s.push_str(&format!(" {}=\"{v}\"", anycase(self.r, "hideLocation"))); top = t; bottom = b; }
                if top { h.push_str(" data-show-top"); } if bottom { h.push_str(" data-show-bottom"); }
                let b = self.blocks(depth, 2);
                let extra = if bottom { format!("<wj-collapsible-button-bottom class=\"wj-collapsible-button wj-collapsible-button-bottom\"><span class=\"wj-collapsible-hide-text\">{}</span></wj-collapsible-button-bottom>", esc(&hide)) } else { String::new() };
                Piece::new(format!("[[{}{s}]]\n{}[[/collapsible]]\n", anycase(self.r, "collapsible"), b.src), format!("<details{h}><summary class=\"wj-collapsible-button wj-collapsible-button-top\"><span class=\"wj-collapsible-show-text\">{}</span><span class=\"wj-collapsible-hide-text\">{}</span></summary><div class=\"wj-collapsible-content\">{}</div>{extra}</details>", esc(&show), esc(&hide), b.html), b.plain)
            }
            5 => { // block lists
                let (tag, s0, h0) = { let t = *self.r.pick(&["ul", "ol"]); let (s, h) = self.attrs(""); (t, s, h) };
                let mut p = Piece::new(format!("[[{tag}{s0}]]\n"), format!("<{tag}{h0}>"), "");
                for _ in 0..1 + self.r.below(3) {
                    let (s, h) = self.attrs(""); let b = self.line(depth.min(2), true);
                    p.add(Piece::new(format!("[[li{s}]]{}[[/li]]\n", b.src), format!("<li{h}>{}</li>", b.html), b.plain));
                    if self.r.chance(1, 5) { let w = self.words(); let o = if tag == "ul" { "ol" } else { "ul" }; p.add(Piece::new(format!("[[{o}]][[li]]{}[[/li]][[/{o}]]\n", w.src), format!("<{o}><li>{}</li></{o}>", w.html), w.plain)); }
                }
                p.add(Piece::new(format!("[[/{tag}]]\n"), format!("</{tag}>"), "")); p
            }
            6 => { // block tables
                let (s0, h0) = self.attrs("");
                let mut p = Piece::new(format!("[[table{s0}]]\n"), format!("<table{h0}><tbody>"), "");
                for _ in 0..1 + self.r.below(2) {
                    let (s, h) = self.attrs("");
                    p.add(Piece::new(format!("[[row{s}]]\n"), format!("<tr{h}>"), ""));
                    for _ in 0..1 + self.r.below(3) {
                        let (t, tag) = *self.r.pick(&[("cell", "td"), ("cell", "td"), ("hcell", "th")]); let (s, h) = self.attrs("");
                        let b = self.line(depth.min(2), true);
                        p.add(Piece::new(format!("[[{t}{s}]]{}[[/{t}]]\n", b.src), format!("<{tag}{h}>{}</{tag}>", b.html), b.plain));
                    }
                    p.add(Piece::new("[[/row]]\n", "</tr>", ""));
                }
                p.add(Piece::new("[[/table]]\n", "</tbody></table>", "")); p
            }
            7 => { // tabs
                let n = 1 + self.r.below(3);
                let (mut src, mut buttons, mut panels, mut plain) = ("[[tabview]]\n".to_string(), String::new(), String::new(), String::new());
                let uid = self.n; self.n += 1;
                for i in 0..n {
                    let l = self.word(); let b = self.blocks(depth, 2);
                    src.push_str(&format!("[[tab {l}]]\n{}[[/tab]]\n", b.src));
                    buttons.push_str(&format!("<wj-tabs-button class=\"wj-tabs-button\" id=\"wj-id-b{uid}x{i}\" role=\"tab\" aria-label=\"{}\" aria-selected=\"{}\" aria-controls=\"wj-id-p{uid}x{i}\" tabindex=\"{}\">{}</wj-tabs-button>", esc(&l), i == 0, if i == 0 { "0" } else { "-1" }, esc(&l)));
                    panels.push_str(&format!("<div class=\"wj-tabs-panel\" id=\"wj-id-p{uid}x{i}\" role=\"tabpanel\" aria-labelledby=\"wj-id-b{uid}x{i}\" tabindex=\"0\"{}>{}</div>", if i == 0 { "" } else { " hidden" }, b.html));
                    plain.push_str(&l); plain.push_str(&b.plain);
                }
                src.push_str("[[/tabview]]\n");
                Piece::new(src, format!("<wj-tabs class=\"wj-tabs\"><div class=\"wj-tabs-button-list\" role=\"tablist\">{buttons}</div><div class=\"wj-tabs-panel-list\">{panels}</div></wj-tabs>"), plain)
            }
            8 => { // native lists
                let mut items: Vec<(usize, char, Piece)> = vec![]; let mut d = 0usize;
                for _ in 0..1 + self.r.below(5) { let k = *self.r.pick(&['*', '#']); let b = self.line(1, true); items.push((d, k, b)); d = match self.r.below(4) { 0 => d + 1 + self.r.below(2), 1 => self.r.below(d + 1), _ => d }; }
                let src: String = items.iter().map(|(d, k, b)| format!("{}{k} {}\n", " ".repeat(*d), b.src)).collect();
                let plain: String = items.iter().map(|i| i.2.plain.clone()).collect();
                Piece::new(src, lists(&items), plain)
            }
            9 => { // native quotes
                let mut items: Vec<(usize, Piece)> = vec![]; let mut d = 1usize;
                for _ in 0..1 + self.r.below(5) { let b = self.line(1, true); items.push((d, b)); d = match self.r.below(4) { 0 => d + 1 + self.r.below(2), 1 => 1 + self.r.below(d), _ => d }; }
                let src: String = items.iter().map(|(d, b)| format!("{}{}{}\n", ">".repeat(*d), if self.r.chance(4, 5) { " " } else { "" }, b.src)).collect();
                let plain: String = items.iter().map(|i| i.1.plain.clone()).collect();
                Piece::new(src, quotes(&items.iter().map(|(d, b)| (*d, b.html.clone())).collect::<Vec<_>>(), 1), plain)
            }
            10 => { // native tables
                let mut p = Piece::new("", "<table class=\"wj-table\"><tbody>", "");
                self.in_cell = true;
                for _ in 0..1 + self.r.below(3) {
                    p.html.push_str("<tr>");
                    for _ in 0..1 + self.r.below(3) {
                        let span = if self.r.chance(1, 5) { 1 + self.r.below(3) } else { 0 };
                        let (m, tag, at) = *self.r.pick(&[("||", "td", ""), ("||~", "th", ""), ("||<", "td", " class=\"wj-align-left\""), ("||>", "td", " class=\"wj-align-right\""), ("||=", "td", " class=\"wj-align-center\"")]);
                        let b = self.line(1, true);
                        let at = if span > 0 { format!("{at} colspan=\"{}\"", span + 1) } else { at.to_string() };
                        p.add(Piece::new(format!("{}{m} {} ", "||".repeat(span), b.src), format!("<{tag}{at}>{}</{tag}>", b.html), b.plain));
                    }
                    p.src.push_str("||\n"); p.html.push_str("</tr>");
                }
                self.in_cell = false;
                p.html.push_str("</tbody></table>"); p
            }
            11 => { let mut p = Piece::new("", "<dl>", ""); for _ in 0..1 + self.r.below(3) { let k = self.words(); let b = self.line(1, true); p.add(Piece::new(format!(": {} : {}\n", k.src, b.src), format!("<dt>{}</dt><dd>{}</dd>", k.html, b.html), format!("{} {}", k.plain, b.plain))); } p.html.push_str("</dl>"); p }
            12 => self.heading(),
            13 => match self.r.below(3) { 0 => Piece::new(format!("{}\n", "-".repeat(4 + self.r.below(4))), "<hr>", ""), 1 => { let (m, c) = *self.r.pick(&[("~~~~", "both"), ("~~~~<", "left"), ("~~~~>", "right"), ("~~~~~~~", "both")]); Piece::new(format!("{m}\n"), format!("<div class=\"wj-clear-float wj-clear-float-{c}\"></div>"), "") } _ => { let n = self.n; self.n += 1; let (s, h) = self.attrs(""); Piece::new(format!("[[iframe https://e.com/{n}{s}]]\n"), format!("<iframe src=\"https://e.com/{n}\" crossorigin{h}></iframe>"), "") } },
            14 => {
                let n = self.n; self.n += 1;
                let body = *self.r.pick(&["fn x() { **a** }", "  indented <b>&\n\nlines [[div]]", "@@ raw", "[[/cod]] [!-- x --]", "+ no heading\n* no list", "|| a ||", "a\n[[code"]);
                let body = format!("{body} {n}");
                let (at, lang) = *self.r.pick(&[("", ""), (" type=\"PHP\"", "php"), (" type=\"c\"", "c"), (" TYPE=\"Rust\"", "rust")]);
                self.code.push(body.clone());
                let sp = |i: &str| format!("<svg class=\"wj-sprite sprite-{i}\" viewBox=\"0 0 24 24\"><use href=\"/files--static/media/ui.svg#{i}\"></use></svg>");
                Piece::new(format!("[[{}{at}]]\n{body}\n[[/code]]\n", anycase(self.r, "code")), format!("<wj-code class=\"wj-code wj-language-{}\"><div class=\"wj-code-panel\"><wj-code-copy type=\"button\" class=\"wj-code-copy\" title=\"Copy to Clipboard\">{}{}</wj-code-copy><span class=\"wj-code-language\">{lang}</span></div><pre><code>{}</code></pre></wj-code>", if lang.is_empty() { "none" } else { lang }, sp("wj-clipboard"), sp("wj-clipboard-success"), esc(&body)), body)
            }
            15 => { let n = self.n; self.n += 1; let body = format!("<p>**x** {n}</p>\n\n[[div]] &amp; @@"); self.html.push(body.clone()); Piece::new(format!("[[html]]\n{body}\n[[/html]]\n"), "<iframe src=\"https://example.com/\" crossorigin></iframe>", "") }
            _ => {
                let (yes, cond) = *self.r.pick(&[(true, "iftags +tale"), (false, "iftags -tale"), (true, "ifcategory _default"), (false, "ifcategory zz"), (false, "iftags +tale -_cc")]);
                let keep = (self.notes.clone(), self.toc.clone(), self.code.clone(), self.html.clone());
                // (a conditional does not wrap its text in paragraphs)
                let b = if depth == 0 { self.heading() } else { self.block(depth - 1) };
                let end = &cond[..cond.find(' ').unwrap()];
                if yes { Piece::new(format!("[[{cond}]]\n{}[[/{end}]]\n", b.src), b.html, b.plain) }
                else { (self.notes, self.toc, self.code, self.html) = keep; Piece::new(format!("[[{cond}]]\n{}[[/{end}]]\n[[div]]\n[[/div]]\n", b.src), "<div></div>", "") }
            }
        }
    }
}

const BROKEN: &[&str] = &["[[collapsible]]", "[[div class=\"x\"]]", "[[blockquote]]", "[[table]]", "[[row]]", "[[cell]]", "[[ul]]", "[[ol]]", "[[li]]", "[[tabview]]", "[[tab x]]", "[[footnote]]", "[[iftags +tale]]", "[[ifcategory y]]", "[[code]]", "[[html]]", "[[bibliography]]", "[[/div]]", "[[/footnote]]", "@@ alone", "**x", "//y", "__z", "^^w", ",,v", "{{u", "##red|t", "||a", "||~ h", "[[[link", "[[>]]", "[[=]]", "[[/>]]", "[!-- open", "[[nosuch]]", "[[nosuch]]x[[/nosuch]]", "[[span]]", "[[b]]", "[[size 5px]]", "[[a href=\"x\"]]", "[[ruby]]", "[[rt]]", "[[module Nope]]", "[[module css]]", "[[math]]", "[[image]]", "[[div", "[[code", "x]]", "[[]]", "((bibcite", "{$x", "[[[]]]", "[[[|x]]]", "@<x", "x>@", "[[char nosuch]]", "[[lines x]]", "[[user]]", "[[date x]]", "[[radio]]", "[[*div]]x[[/div]]", "[[b_]]x[[/b]]", "--]", "[[iframe]]", "[[eref]]", "[[file]]", "[[collapsible folded=\"maybe\"]]x[[/collapsible]]"];
impl G<'_> {
    /// Markup that does not complete, as a paragraph of its own: it is text.
    pub fn broken(&mut self) -> Piece {
        let b = *self.r.pick(BROKEN);
        let (x, y) = (self.words(), self.words());
        let p = Piece::new(b, esc(b), b);
        let mut o = if b.starts_with("||") { p } else { let mut o = x; o.add(Piece::new(" ", " ", " ")); o.add(p); o };
        o.add(Piece::new(" ", " ", " ")); o.add(y);
        Piece::new(format!("{}\n\n", o.src), format!("<p>{}</p>", o.html), o.plain)
    }
}

/// Items with depths and kinds as nested HTML lists: neighbours share a list
/// as long as depth and kind allow it.
pub fn lists(items: &[(usize, char, Piece)]) -> String {
    fn tag(k: char) -> &'static str { if k != '#' { "ul" } else { "ol" } }
    // `items` are all at depth >= d; a list of depth d is the longest run with one kind at depth d
    fn level(items: &[(usize, char, Piece)], d: usize) -> String {
        let mut out = String::new();
        let mut i = 0;
        while i < items.len() {
            let mut j = i + 1;
            // the run shares a list while items at this depth have the kind of the first
            let kind = |x: &(usize, char, Piece)| x.1;
            // nothing starts a list at this depth yet: the outermost list has bullets
            let k = if d == 0 && i == 0 && items[0].0 > 0 { 'g' } else { kind(&items[i]) };
            while j < items.len() && (items[j].0 > d || kind(&items[j]) == k) { j += 1; }
            let run = &items[i..j];
            out.push_str(&format!("<{}>", tag(k)));
            let mut p = 0;
            while p < run.len() {
                if run[p].0 == d { out.push_str(&format!("<li>{}</li>", run[p].2.html)); p += 1; }
                else { let mut q = p; while q < run.len() && run[q].0 > d { q += 1; } out.push_str(&level(&run[p..q], d + 1)); p = q; }
            }
            out.push_str(&format!("</{}>", tag(k)));
            i = j;
        }
        out
    }
    level(items, 0)
}
/// Lines with depths as nested block quotes.
pub fn quotes(items: &[(usize, String)], d: usize) -> String {
    let mut out = "<blockquote>".to_string();
    let mut i = 0;
    while i < items.len() {
        let mut j = i;
        if items[i].0 == d {
            while j < items.len() && items[j].0 == d { j += 1; }
            out.push_str(&format!("<p>{}</p>", items[i..j].iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("<br>")));
        } else {
            while j < items.len() && items[j].0 > d { j += 1; }
            out.push_str(&quotes(&items[i..j], d + 1));
        }
        i = j;
    }
    out.push_str("</blockquote>");
    out
}
/// Headings as a nested list of links.
pub fn toc(items: &[(usize, String)]) -> String {
    // levels count from the highest one: level 1 is depth 0
    fn level(items: &[(usize, usize, &str)], d: usize) -> String {
        let mut out = "<ul>".to_string();
        let mut i = 0;
        while i < items.len() {
            if items[i].1 == d { out.push_str(&format!("<li><a href=\"#toc{}\" class=\"wj-link wj-link-anchor\" data-link-type=\"table-of-contents\">{}</a></li>", items[i].0, esc(items[i].2))); i += 1; }
            else { let mut j = i; while j < items.len() && items[j].1 > d { j += 1; } out.push_str(&level(&items[i..j], d + 1)); i = j; }
        }
        out + "</ul>"
    }
    let v: Vec<_> = items.iter().enumerate().map(|(i, (l, t))| (i, *l - 1, t.as_str())).collect();
    if v.is_empty() { String::new() } else { level(&v, 0) }
}
pub fn footnotes(notes: &[String], title: &str) -> String {
    if notes.is_empty() { return String::new(); }
    let items: String = notes.iter().enumerate().map(|(i, b)| format!("<li class=\"wj-footnote-list-item\" data-id=\"{0}\"><wj-footnote-list-item-marker class=\"wj-footnote-list-item-marker\" type=\"button\" role=\"link\">{0}<span class=\"wj-footnote-sep\">.</span></wj-footnote-list-item-marker><span class=\"wj-footnote-list-item-contents\">{b}</span></li>", i + 1)).collect();
    format!("<div class=\"wj-footnote-list\"><div class=\"wj-title\">{}</div><ol>{items}</ol></div>", esc(title))
}

pub fn gen(r: &mut Rng) -> (String, Value) {
    let (iso, wj) = (r.chance(1, 2), r.chance(1, 2));
    let mut g = G::new(r, iso);
    let broken = if g.r.chance(1, 4) { Some(g.broken()) } else { None };
    let mut d = if g.r.chance(1, 4) { let p = g.paragraph(3); Piece::new(format!("{}\n", p.src), format!("<p>{}</p>", p.html), p.plain) } else { let k = 1 + g.r.below(3); g.blocks(k, 3) };
    let mut listed = false;
    // an opening of something whose end occurs in the content comes after it
    if let Some(mut b) = broken { let last = ["[[code", "[[html]]", "[[footnote]]", "[!--", "@@", "[[math", "@<", "[[module"].iter().any(|x| b.src.contains(x)); if last || g.r.chance(1, 3) { d.add(Piece::new("\n", "", "")); d.add(b); } else { b.add(d); d = b; } }
    if g.r.chance(1, 6) { // a table of contents after the content
        let t = toc(&g.toc);
        d.add(Piece::new("\n[[toc]]\n", format!("<div id=\"wj-toc\"><div id=\"wj-toc-action-bar\"><a href=\"javascript:;\" onclick=\"WIKIJUMP.page.listeners.foldToc(event)\"></a></div><div class=\"title\">Table of Contents</div><div id=\"wj-toc-list\">{t}</div></div>"), ""));
    }
    if g.r.chance(1, 6) { listed = true; let (s, t) = *g.r.pick(&[("", "Footnotes"), (" title=\"My <Notes>\"", "My <Notes>"), (" TITLE=\"\"", "")]); let h = footnotes(&g.notes, t); d.add(Piece::new(format!("\n[[footnoteblock{s}]]\n"), h, "")); }
    if !listed { let h = footnotes(&g.notes, "Footnotes"); d.add(Piece::new("", h, "")); }
    let (notes, code, html, toc) = (g.notes, g.code, g.html, g.toc);
    (d.src, json!({"mode": 0, "wj": wj, "iso": iso, "ids": true, "expect": d.html, "plain": d.plain, "notes": notes, "code": code, "html": html, "toc": toc}))
}

/// The rendering of a constructed document is the expected one.
pub fn rendered(text: &str, a: &Value) -> Outcome {
    let Some(want) = a["expect"].as_str() else { return Ok(false) };
    with(text, a, |d| {
        let real = d.nodes()?;
        let want = html::parse(&format!("<wj-body class=\"wj-body\">{want}</wj-body>")).map_err(|e| format!("the expectation is malformed: {e}"))?;
        if let Some(e) = html::diff(&html::canonical(&real), &html::canonical(&want), "") { return Err(format!("{e}\nHTML: {}", clip(&d.html().body))); }
        let list = |v: &[String]| json!(v);
        if a["code"].is_array() && list(&d.tree.code_blocks.iter().map(|c| c.contents.to_string()).collect::<Vec<_>>()) != a["code"] { return Err(format!("code blocks {:?}, expected {}", d.tree.code_blocks, a["code"])); }
        if a["html"].is_array() && list(&d.tree.html_blocks.iter().map(|c| c.to_string()).collect::<Vec<_>>()) != a["html"] { return Err(format!("HTML blocks {:?}, expected {}", d.tree.html_blocks, a["html"])); }
        Ok(true)
    })
}
/// The plain text has the expected visible characters in order.
pub fn plain(text: &str, a: &Value) -> Outcome {
    let Some(want) = a["plain"].as_str() else { return Ok(false) };
    with(text, a, |d| {
        let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        let got = d.plain();
        if squeeze(&got) != squeeze(want) { return Err(format!("text rendering is {got:?}, expected the characters of {want:?}")); }
        Ok(true)
    })
}
/// Deterministic sample with every fragment at least once.
pub fn everything() -> Vec<(String, Value)> {
    let mut v = vec![];
    for (i, f) in fragments::SINGLE_BLOCKS.iter().chain(fragments::FRAGS).enumerate() { v.push((f.to_string(), json!({"mode": i % 5, "wj": i % 2 == 0}))); v.push((format!("a {f} b\n\n{f}\n"), json!({"mode": 0}))); }
    for b in fragments::BODY_BLOCKS { let n = b.split(' ').next().unwrap(); v.push((format!("[[{b}]]x[[/{n}]]"), json!({}))); v.push((format!("[[{b}]]\n**x**\n\ny\n[[/{n}]]\n"), json!({}))); v.push((format!("[[{b} class=\"c\" id=\"i\" title=\"t\"]]x[[/{n}]]"), json!({}))); }
    v
}
pub fn sub(name: &'static str, weight: usize) -> Sub { Sub { name, weight, gen, run: rendered, fixed: none } }
