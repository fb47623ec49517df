//! Monitors for the stages which handle raw text: lexer, preprocessor,
//! includes, page references and index maps.
use crate::{case::*, env::{self, *}, gen, rng::Rng};
use ftml::data::PageRef;
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use ftml::Utf16IndexMap;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::HashMap;

// ---- lexer -----------------------------------------------------------

fn nl(s: &str) -> usize { if s.starts_with("\r\n") { 2 } else if s.starts_with(['\n', '\r']) { 1 } else { 0 } }
fn run_of(s: &str, c: char) -> usize { s.chars().take_while(|x| *x == c).count() }

/// Independent statement of the token language: the token at the start of a
/// non-empty string (pairs for the "[[[[" / "]]]]" special cases).
pub fn next_tokens(s: &str) -> Vec<(&'static str, usize)> {
    let one = |n: &'static str, l: usize| vec![(n, l)];
    for (p, n) in [("@@", "raw"), ("@<", "left-raw"), (">@", "right-raw"), ("[!--", "left-comment"), ("--]", "right-comment")] { if s.starts_with(p) { return one(n, p.len()); } }
    for p in ["https://", "http://", "ftp://"] {
        if let Some(r) = s.strip_prefix(p) {
            let l = r.find(['\n', '\r', ' ', '|', '[', ']']).unwrap_or(r.len());
            if l > 0 { return one("url", p.len() + l); }
        }
    }
    let ident = |s: &str| s.bytes().take_while(|b| b.is_ascii_alphanumeric()).count();
    let n = ident(s);
    if n > 0 { return one("identifier", n); }
    // e-mail: unreachable, the first part of the pattern takes everything
    if let Some(r) = s.strip_prefix("{$") { let n = ident(r); if n > 0 && r[n..].starts_with('}') { return one("variable", n + 3); } }
    if s.starts_with('"') {
        let mut it = s[1..].char_indices();
        while let Some((i, c)) = it.next() {
            if c == '"' { return one("string", i + 2); }
            if c == '\n' || c == '\r' { break; }
            if c == '\\' { match it.next() { None | Some((_, '\n' | '\r')) => break, _ => {} } }
        }
    }
    if s.starts_with("[[[[") { return vec![("left-bracket", 1), ("left-link", 3)]; }
    if s.starts_with("]]]]") { return vec![("right-link", 3), ("right-bracket", 1)]; }
    const SYMS: [(&str, &str); 34] = [
        ("[[[*", "left-link-star"), ("[[[", "left-link"), ("[[$", "left-math"), ("[[#", "left-block-anchor"), ("[[*", "left-block-star"), ("[[/", "left-block-end"), ("[[", "left-block"),
        ("[#", "left-bracket-anchor"), ("[*", "left-bracket-star"), ("[", "left-bracket"), ("((", "left-parentheses"), ("]]]", "right-link"), ("$]]", "right-math"), ("]]", "right-block"), ("]", "right-bracket"), ("))", "right-parentheses"),
        ("**", "bold"), ("//", "italics"), ("__", "underline"), ("^^", "superscript"), (",,", "subscript"), ("##", "color"), ("{{", "left-monospace"), ("}}", "right-monospace"),
        ("||~", "table-column-title"), ("||<", "table-column-left"), ("||>", "table-column-right"), ("||=", "table-column-center"), ("||", "table-column"),
        ("<<", "left-double-angle"), ("|", "pipe"), ("=", "equals"), (":", "colon"), ("_", "underscore"),
    ];
    let t = run_of(s, '~');
    if t >= 3 { return match s[t..].chars().next() { Some('<') => one("clear-float-left", t + 1), Some('>') => one("clear-float-right", t + 1), _ => one("clear-float-both", t) }; }
    if t == 2 { return one("double-tilde", 2); }
    let d = run_of(s, '-');
    if d >= 3 { return one("triple-dash", d); }
    if d == 2 { return one("double-dash", 2); }
    for (p, n) in SYMS { if s.starts_with(p) { return one(n, p.len()); } }
    let q = run_of(s, '>');
    if q > 0 { return one("quote", q); }
    let h = run_of(s, '+').min(6);
    if h > 0 { let star = s[h..].starts_with('*') && !s[h + 1..].starts_with('*'); return one("heading", h + star as usize); }
    if s.starts_with('*') { return one("bullet-item", 1); }
    if s.starts_with('#') { return one("numbered-item", 1); }
    let mut l = nl(s);
    if l > 0 { let first = l; while nl(&s[l..]) > 0 { l += nl(&s[l..]); } return if l > first { one("paragraph-break", l) } else { one("line-break", l) }; }
    let w = s.bytes().take_while(|b| *b == b' ' || *b == b'\t').count();
    if w > 0 { return one("whitespace", w); }
    one("other", s.chars().next().unwrap().len_utf8())
}

fn lexer(text: &str, _: &Value) -> Outcome {
    let t = ftml::tokenize(text);
    let mut want: Vec<(&str, usize, usize)> = vec![("input-start", 0, 0)];
    let mut at = 0;
    while at < text.len() { for (n, l) in next_tokens(&text[at..]) { want.push((n, at, at + l)); at += l; } }
    want.push(("input-end", at, at));
    let toks = t.tokens();
    for i in 0..want.len().max(toks.len()) {
        let got = toks.get(i).map(|k| (serde_json::to_value(k.token).unwrap().as_str().unwrap().to_string(), k.span.start, k.span.end, k.slice));
        match (got, want.get(i)) {
            (Some((n, a, b, s)), Some(w)) => {
                if (n.as_str(), a, b) != *w { return Err(format!("token {i} is {n} {a}..{b}, expected {w:?}")); }
                if s != &text[a..b] { return Err(format!("token {i} {n} {a}..{b} has text {s:?}, the input there is {:?}", &text[a..b])); }
            }
            (g, w) => return Err(format!("token {i}: {g:?}, expected {w:?}")),
        }
    }
    Ok(toks.len() > 2)
}

const LEX: &[&str] = &["~", "~~~", "-", "--", "---", "[", "[[", "[[[", "[[[[", "]", "]]", "]]]", "]]]]", "+", "++", "+++++++", "*", "**", "#", "##", "@", "@@", "@<", ">@", "<", "<<", ">", ">>", "\"", "\\", "\\\"", "$", "{$", "}", "{{", "}}", "|", "||", "||~", "=", ":", "_", "__", "^", "^^", ",", ",,", "/", "//", "(", "((", "))", "!--", "[!--", "--]", "a", "Z9", "$]]", "[[$", "http://", "https://", "ftp://", "x@y.zz", " ", "\t", "\n", "\r", "\r\n", "\n\n", "é", "💯", "\u{301}", "\0", "\u{a0}"];
fn lex_gen(r: &mut Rng) -> (String, Value) {
    let mut s = String::new();
    if r.chance(1, 4) { s = gen::document(r); } else { for _ in 0..r.below(14) { let p = *r.pick(LEX); for _ in 0..1 + if r.chance(1, 8) { r.below(5) } else { 0 } { s.push_str(p); } } }
    (s, json!({}))
}
fn lex_fixed() -> Vec<(String, Value)> {
    let mut v = vec![(String::new(), json!({}))];
    for a in LEX { v.push((a.to_string(), json!({}))); for b in LEX { v.push((format!("{a}{b}"), json!({}))); } }
    v
}
/// Tokens converted to UTF-16 offsets select the same text.
fn utf16(text: &str, _: &Value) -> Outcome {
    let units: Vec<u16> = text.encode_utf16().collect();
    let map = Utf16IndexMap::new(text);
    for (i, c) in text.char_indices() {
        let want = text[..i].encode_utf16().count();
        if map.get_index(i) != want { return Err(format!("byte {i} maps to {}, expected {want}", map.get_index(i))); }
        let e = i + c.len_utf8();
        if map.get_index(e) != want + c.len_utf16() { return Err(format!("byte {e} maps to {}, expected {}", map.get_index(e), want + c.len_utf16())); }
    }
    if map.get_index(text.len()) != units.len() { return Err("end of text does not map to the UTF-16 length".into()); }
    for k in ftml::tokenize(text).tokens() {
        let u = k.to_utf16_indices(&map);
        let got = String::from_utf16(units.get(u.span.clone()).ok_or("span outside of the UTF-16 text")?).map_err(|e| e.to_string())?;
        if got != k.slice || u.token != k.token || u.slice != k.slice { return Err(format!("token {k:?} became {u:?} in UTF-16")); }
    }
    Ok(!text.is_ascii())
}
fn error_spans(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let map = Utf16IndexMap::new(d.text);
        let toks = ftml::tokenize(d.text);
        for e in d.errors {
            let s = e.span();
            if d.text.get(s.clone()).is_none() { return Err(format!("error {e:?} lies outside of the text")); }
            if !toks.tokens().iter().any(|k| k.token == e.token() && k.span == s) { return Err(format!("error {e:?} does not point at a token of the text")); }
            let u = e.to_utf16_indices(&map).span();
            if u.start != d.text[..s.start].encode_utf16().count() || u.end != d.text[..s.end].encode_utf16().count() { return Err(format!("error {e:?} has UTF-16 span {u:?}")); }
        }
        Ok(!d.errors.is_empty())
    })
}
fn doc_any(r: &mut Rng) -> (String, Value) { (gen::document(r), env::any(r)) }
pub fn c10() -> Vec<Sub> {
    vec![Sub { name: "lexer", weight: 1, gen: lex_gen, run: lexer, fixed: lex_fixed }]
}
fn uni(r: &mut Rng) -> (String, Value) {
    let mut s = String::new();
    for _ in 0..r.below(12) { s.push_str(*r.pick(&["a", "é", "日", "💯", "\u{10ffff}", "\u{ffff}", "\u{800}", "\u{7ff}", "\n", "[[", "**", "\"", " ", "\u{301}"])); }
    (s, env::any(r))
}
fn uni_fixed() -> Vec<(String, Value)> {
    let mut out: Vec<(String, Value)> = vec![];
    for c in (0..0x300u32).chain([0x2007, 0x2028, 0x2029, 0xfeff, 0xfffd]).filter_map(char::from_u32) { for t in [format!("{c}"), format!("💯{c}"), format!("{c}é"), format!("é{c}{c}💯{c}")] { out.push((t, json!({}))); } }
    out.extend([(String::new(), json!({})), ("\u{10000}".into(), json!({})), ("\u{ffff}".into(), json!({}))]);
    out
}
pub fn c16() -> Vec<Sub> {
    vec![Sub { name: "utf16", weight: 2, gen: uni, run: utf16, fixed: uni_fixed },
         Sub { name: "error-spans", weight: 3, gen: doc_any, run: error_spans, fixed: none }]
}

// ---- preprocessor -------------------------------------------------------

/// Each step is one left-to-right pass, written without regular expressions.
pub fn reference_preprocess(t: &str) -> String {
    // 1. newlines
    let t = t.replace("\r\n", "\n").replace('\r', "\n");
    // 2. leading non-standard spaces
    let t = t.split('\n').map(|l| { let k = l.trim_start_matches(['\u{a0}', '\u{2007}']); let n = l[..l.len() - k.len()].chars().count(); " ".repeat(n) + k }).collect::<Vec<_>>().join("\n");
    // 3. whitespace-only stretches of lines collapse to one empty line
    let lines: Vec<&str> = t.split('\n').collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let blank = |l: &str| l.chars().all(char::is_whitespace);
        if blank(lines[i]) {
            let mut j = i;
            while j < lines.len() && blank(lines[j]) { j += 1; }
            out.push(String::new());
            i = j;
        } else { out.push(lines[i].to_string()); i += 1; }
    }
    let t = out.join("\n");
    // 4..6. joined lines, tabs, NUL
    let mut j = String::new();
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() { if c[i] == '\\' && c.get(i + 1) == Some(&'\n') { i += 2; } else { j.push(c[i]); i += 1; } }
    let t = j.replace('\t', "    ").replace('\0', " ");
    // 7. no run of more than two newlines, none around the text
    let mut t = t;
    while t.contains("\n\n\n") { t = t.replace("\n\n\n", "\n\n"); }
    let t = t.trim_start_matches('\n').trim_end_matches('\n').to_string();
    // 8. quotation marks, never across lines
    let t = surround(&t, "``", "''", '\u{201c}', '\u{201d}');
    let t = surround(&t, ",,", "''", '\u{201e}', '\u{201d}');
    let t = surround(&t, "`", "'", '\u{2018}', '\u{2019}');
    // 9. ellipses: exactly three dots, or three dots separated by spaces
    let c: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0; // next unread
    let mut from = 0; // the character before the dots has to be at or after this
    while i < c.len() {
        let free = i == 0 || (i > from && c[i - 1] != '.');
        let n = if c[i..].starts_with(&['.', '.', '.']) { 3 } else if c[i..].starts_with(&['.', ' ', '.', ' ', '.']) { 5 } else { 0 };
        if n > 0 && free && c.get(i + n) != Some(&'.') { o.push('\u{2026}'); i += n; from = i; } else { o.push(c[i]); i += 1; }
    }
    o
}
fn surround(t: &str, open: &str, close: &str, l: char, r: char) -> String {
    let mut out = String::new();
    let mut rest = t;
    'scan: while !rest.is_empty() {
        if let Some(body) = rest.strip_prefix(open) {
            let line = &body[..body.find('\n').unwrap_or(body.len())];
            if let Some(e) = line.find(close) { out.push(l); out.push_str(&line[..e]); out.push(r); rest = &body[e + close.len()..]; continue 'scan; }
        }
        let c = rest.chars().next().unwrap();
        out.push(c); rest = &rest[c.len_utf8()..];
    }
    out
}
fn preprocess(text: &str, _: &Value) -> Outcome {
    let mut got = text.to_string();
    ftml::preprocess(&mut got);
    let want = reference_preprocess(text);
    if got != want { return Err(format!("preprocessed to {got:?}, expected {want:?}")); }
    if got.contains(['\r', '\t', '\0']) || got.starts_with('\n') || got.ends_with('\n') || got.contains("\n\n\n") || got.split('\n').any(|l| l.starts_with(['\u{a0}', '\u{2007}'])) { return Err(format!("{got:?} is not in normal form")); }
    Ok(got != text)
}
const PRE: &[&str] = &["\r", "\n", "\r\n", "\t", "\0", " ", "  ", "\u{a0}", "\u{2007}", "\u{3000}", "\\", "\\\n", "`", "``", "'", "''", ",,", ",", ".", "..", "...", ". . .", ". ", "a", "b c", "é", "“", "…", "\u{b}", "\u{85}", "\u{2028}", "x.", ">"];
fn pre_gen(r: &mut Rng) -> (String, Value) { let mut s = String::new(); for _ in 0..r.below(16) { s.push_str(*r.pick(PRE)); } (s, json!({})) }
fn pre_fixed() -> Vec<(String, Value)> { let mut v = vec![]; for a in PRE { for b in PRE { for c in ["", "a", "\n", "."] { v.push((format!("{a}{b}{c}{a}{b}"), json!({}))); } } } v }
pub fn c12() -> Vec<Sub> { vec![Sub { name: "preprocess", weight: 1, gen: pre_gen, run: preprocess, fixed: pre_fixed }] }

// ---- includes -------------------------------------------------------------

struct Peg<'a> { s: &'a str, i: usize }
impl<'a> Peg<'a> {
    fn rest(&self) -> &'a str { &self.s[self.i..] }
    fn lit(&mut self, l: &str) -> bool { if self.rest().starts_with(l) { self.i += l.len(); true } else { false } }
    fn space(&mut self) -> bool { let n = self.rest().bytes().take_while(|b| matches!(b, b' ' | b'\n' | b'\t')).count(); self.i += n; n > 0 }
    fn end(&mut self) -> bool { let r = self.rest(); if r.starts_with("]]") && (r.len() == 2 || r[2..].starts_with(['\n', '\r'])) { self.i += 2; true } else { false } }
    fn argument(&mut self) -> Option<(&'a str, &'a str)> {
        let back = self.i;
        let n = self.rest().bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_').count();
        let key = &self.rest()[..n];
        self.i += n;
        let ok = n > 0 && { self.space(); self.lit("=") };
        if ok {
            self.space();
            let from = self.i;
            while let Some(c) = self.rest().chars().next() {
                if c == '|' { break; }
                let r = self.rest();
                if r.starts_with("]]") && (r.len() == 2 || r[2..].starts_with(['\n', '\r'])) { break; }
                self.i += c.len_utf8();
            }
            if self.i > from { return Some((key, &self.s[from..self.i])); }
        }
        self.i = back;
        None
    }
}
/// The include at the start of the string: page, arguments, end offset.
fn include_at(s: &str) -> Option<(&str, Vec<(&str, &str)>, usize)> {
    let mut p = Peg { s, i: 0 };
    if !p.lit("[[") { return None; }
    p.space();
    if p.rest().len() < 7 || !p.rest().is_char_boundary(7) || !p.rest()[..7].eq_ignore_ascii_case("include") { return None; }
    p.i += 7;
    if !p.space() { return None; }
    let from = p.i;
    let name = |p: &mut Peg, colon: bool| { let a = p.i; while let Some(c) = p.rest().chars().next() { if matches!(c, ' ' | '\n' | '\t' | '[' | '|' | ']') || (colon && c == ':') { break; } p.i += c.len_utf8(); } p.i > a };
    if !(p.lit(":") && name(&mut p, true) && p.lit(":") && name(&mut p, false)) { p.i = from; if !name(&mut p, false) { return None; } }
    let page = &s[from..p.i];
    p.space();
    if p.lit("|") { p.space(); }
    let mut args = vec![];
    loop {
        let back = p.i;
        match p.argument() { Some(a) => { p.space(); if p.lit("|") { p.space(); args.push(a); } else { p.i = back; break; } } None => break }
    }
    let back = p.i;
    match p.argument() { Some(a) => { p.space(); p.lit("|"); args.push(a); } None => p.i = back }
    p.space();
    if p.end() { Some((page, args, p.i)) } else { None }
}
pub fn page_ref(s: &str) -> Option<(Option<&str>, &str)> {
    let s = s.trim();
    if s.is_empty() { return None; }
    match s.strip_prefix(':') {
        None => Some((None, s)),
        Some(r) => { let (site, page) = r.split_once(':')?; if site.trim().is_empty() { None } else { Some((Some(site.trim()), page.trim())) } }
    }
}
type RefArgs = (Option<String>, String, HashMap<String, String>);
struct Recorder<'a> { pages: &'a Value, seen: Vec<RefArgs>, missing: Vec<String> }
impl<'t> Includer<'t> for &mut Recorder<'_> {
    type Error = String;
    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, String> {
        let mut v = vec![];
        for i in includes {
            let p = i.page_ref();
            self.seen.push((p.site().map(|s| s.into()), p.page().into(), i.variables().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()));
            v.push(FetchedPage { page_ref: p.clone(), content: self.pages[p.page()].as_str().map(|s| Cow::Owned(s.to_string())) });
        }
        match self.pages["!fault"].as_str() {
            Some("drop") => { v.pop(); }
            Some("extra") => v.push(FetchedPage { page_ref: PageRef::page_only("extra"), content: None }),
            Some("swap") => v.reverse(),
            Some("err") => return Err("fetch".into()),
            _ => {}
        }
        Ok(v)
    }
    fn no_such_include(&mut self, p: &PageRef<'t>) -> Result<Cow<'t, str>, String> { self.missing.push(p.to_string()); Ok(Cow::Owned(format!("<<missing {p}>>"))) }
}
fn substitute(content: &str, vars: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let mut rest = content;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("{$") {
            let n = r.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_').count();
            if n > 0 && r[n..].starts_with('}') {
                match vars.get(&r[..n]) { Some(v) => out.push_str(v), None => out.push_str(&rest[..n + 3]) }
                rest = &r[n + 1..];
                continue;
            }
        }
        let c = rest.chars().next().unwrap();
        out.push(c); rest = &rest[c.len_utf8()..];
    }
    out
}
fn includes(text: &str, a: &Value) -> Outcome {
    let st = env::settings(a);
    let pages = &a["pages"];
    let mut rec = Recorder { pages, seen: vec![], missing: vec![] };
    let got = ftml::include(text, &st, &mut rec, || "invalid".to_string());
    // reference
    if !st.enable_page_syntax {
        return match got { Ok((s, p)) if s == text && p.is_empty() && rec.seen.is_empty() => Ok(false), g => Err(format!("includes are off, but the result was {g:?}")) };
    }
    let mut found: Vec<(usize, usize, RefArgs)> = vec![];
    let mut i = 0;
    while i < text.len() {
        let line_start = i == 0 || text.as_bytes()[i - 1] == b'\n';
        if line_start && text[i..].starts_with("[[") {
            // the candidate pattern consumes the white space which follows it
            let r = &text[i + 2..];
            let k = r.trim_start();
            if k.len() >= 7 && k.is_char_boundary(7) && k[..7].eq_ignore_ascii_case("include") && k[7..].starts_with(char::is_whitespace) {
                if let Some((page, args, end)) = include_at(&text[i..]) {
                    if let Some((site, page)) = page_ref(page) {
                        let mut m = HashMap::new();
                        for (k, v) in args { if !m.contains_key(k) && v != format!("{{${k}}}") { m.insert(k.to_string(), v.to_string()); } }
                        found.push((i, i + end, (site.map(|s| s.to_string()), page.to_string(), m)));
                        i += end;
                        continue;
                    }
                }
            }
        }
        i += text[i..].chars().next().unwrap().len_utf8();
    }
    let want_seen: Vec<RefArgs> = found.iter().map(|f| f.2.clone()).collect();
    if rec.seen != want_seen { return Err(format!("asked for {:?}, expected {:?}", rec.seen, want_seen)); }
    let name = |f: &RefArgs| match &f.0 { Some(s) => format!(":{s}:{}", f.1), None => f.1.clone() };
    let want = match pages["!fault"].as_str() {
        Some("err") => Err("fetch".to_string()),
        Some("drop") if !found.is_empty() => Err("invalid".into()),
        Some("extra") => Err("invalid".into()),
        Some("swap") if { let n: Vec<_> = found.iter().map(|f| (&f.2 .0, &f.2 .1)).collect(); let mut m = n.clone(); m.reverse(); n != m } => Err("invalid".into()),
        _ => {
            let (mut out, mut at) = (String::new(), 0);
            for (s, e, f) in &found {
                out.push_str(&text[at..*s]);
                match pages[&f.1].as_str() { Some(c) => out.push_str(&substitute(c, &f.2)), None => out.push_str(&format!("<<missing {}>>", name(f))) }
                at = *e;
            }
            out.push_str(&text[at..]);
            Ok((out, found.iter().map(|f| name(&f.2)).collect::<Vec<_>>()))
        }
    };
    let got = got.map(|(s, p)| (s, p.iter().map(|p| p.to_string()).collect::<Vec<_>>()));
    if got != want { return Err(format!("include gave {got:?}, expected {want:?}")); }
    Ok(!found.is_empty())
}
const INC: &[&str] = &["[[include ", "[[ include\n", "[[INCLUDE ", "[[include", "[[include page]]", "[[include page]]\n", "\n[[include page ", "page", ":site:page", ":page", "::x", "cat:page", "nope", "|", " | ", "\n|", "a=1", "a = x y", "b={$b}", "b=", "a={$a}", "a = {$b}", "c-d_1=é", "x=[[a]]", "]]", "]]\n", "]]x", "\n", " ", "text", "{$a}", "[[div]]", "é", "\n[[include page2 a=2]]\n", "[[include-messy page]]\n", "\u{a0}", "\r\n"];
fn inc_gen(r: &mut Rng) -> (String, Value) {
    let mut s = String::new();
    if r.chance(1, 2) {
        for _ in 0..r.below(4) {
            match r.below(4) { 0 => s.push_str(*r.pick(&["text {$a}\n", "é\n", "[[div]]\n", "\n"])), _ => {
                s.push_str(*r.pick(&["[[include ", "[[ include ", "[[Include\n", "x [[include "])); s.push_str(*r.pick(&["page", ":site:page", "page2", "cat:page", "nope"]));
                for i in 0..r.below(4) { s.push_str(if i == 0 && r.chance(1, 2) { " " } else { *r.pick(&[" | ", "|", "\n|", " |\n"]) }); s.push_str(*r.pick(&["a=1", "a = x y ", "b={$b}", "a={$a}", "c-d_1=é{$a}", "b=two", "x=[[y]]"])); }
                if r.chance(1, 4) { s.push('|'); }
                s.push_str(*r.pick(&["]]\n", " ]]\n", "]]", "]]\n\n", "]] x\n"]));
            } }
        }
    } else { for _ in 0..r.below(12) { s.push_str(*r.pick(INC)); } }
    let pages = json!({ "page": *r.pick(&["P {$a} {$b}{$c-d_1} {$}", "", "[[include page]]\n", "{$a}{$a}", "é{$a"]), "page2": "{$b}{$x}", "cat:page": "C{$a}", "!fault": *r.pick(&["", "", "", "", "", "", "drop", "extra", "swap", "err"]) });
    let mode = if r.chance(1, 10) { r.below(5) } else { 0 };
    (s, json!({"mode": mode, "wj": r.chance(1, 2), "pages": pages}))
}
pub fn c13() -> Vec<Sub> { vec![Sub { name: "includes", weight: 1, gen: inc_gen, run: includes, fixed: none }] }

// ---- page references --------------------------------------------------------

fn refs(text: &str, _: &Value) -> Outcome {
    let got = PageRef::parse(text).ok();
    let want = page_ref(text);
    if got.as_ref().map(|p| p.fields()) != want { return Err(format!("{text:?} parsed as {got:?}, expected {want:?}")); }
    let Some(p) = got else { return Ok(false) };
    let (site, page) = p.fields();
    let shown = p.to_string();
    let expect = match site { Some(s) => format!(":{s}:{page}"), None => page.to_string() };
    if shown != expect { return Err(format!("{p:?} displays as {shown:?}, expected {expect:?}")); }
    // printing and reading it again gives the same reference
    match PageRef::parse(&shown) { Ok(q) if q == p => {} q => return Err(format!("{p:?} displays as {shown:?}, which reads as {q:?}")) }
    if p.to_owned() != p || p.fields_or("here") != (site.unwrap_or("here"), page) { return Err(format!("copies of {p:?} differ")); }
    Ok(true)
}
fn ref_gen(r: &mut Rng) -> (String, Value) { let mut s = String::new(); for _ in 0..r.below(8) { s.push_str(*r.pick(&[":", "a", "page", "é", " ", "\t", "#", "/", "\u{a0}", "site", "::"])); } (s, json!({})) }
fn ref_fixed() -> Vec<(String, Value)> {
    let al = [":", "a", " ", "é"];
    let mut all: Vec<String> = vec![String::new()]; let mut last = all.clone();
    for _ in 0..6 { last = last.iter().flat_map(|s| al.iter().map(move |a| format!("{s}{a}"))).collect(); all.extend(last.clone()); }
    all.into_iter().map(|s| (s, json!({}))).collect()
}
pub fn c15() -> Vec<Sub> { vec![Sub { name: "references", weight: 1, gen: ref_gen, run: refs, fixed: ref_fixed }] }
