//! Reference meaning of a syntax tree as an HTML document: the executable
//! postcondition of the HTML renderer. Written against the published element
//! types only; shares no code with the renderer.
use crate::html::{push_text, Node};
use ftml::data::{PageInfo, PageRef};
use ftml::settings::WikitextSettings;
use ftml::tree::*;
use std::collections::HashMap;

pub struct Ref<'a> {
    pub tree: &'a SyntaxTree<'a>,
    pub info: &'a PageInfo<'a>,
    pub st: &'a WikitextSettings,
    pub internal: Vec<PageRef<'static>>,
    pub external: Vec<String>,
    scopes: Vec<HashMap<String, String>>,
    toc: usize, equation: usize, footnote: usize, random: usize,
    tooltip: bool,
}

pub const SCHEMES: [&str; 19] = ["blob:", "chrome-extension://", "chrome://", "content://", "dns:", "feed:", "file://", "ftp://", "git://", "gopher://", "http://", "https://", "irc6://", "irc://", "ircs://", "mailto:", "resource://", "rtmp://", "sftp://"];
pub fn is_url(s: &str) -> bool { SCHEMES.iter().any(|p| s.starts_with(p)) }

pub fn href(url: &str) -> String {
    if is_url(url) || url.starts_with('#') || url == "javascript:;" { return url.to_string(); }
    if let Some((scheme, _)) = url.split_once(':') {
        let plain = !scheme.is_empty() && scheme.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-' || !c.is_ascii());
        let weird = !plain || scheme.chars().any(|c| !c.is_ascii());
        let low = scheme.to_ascii_lowercase();
        if low == "javascript" || low == "data" || (weird && !scheme_is_word(scheme)) { return "#invalid-url".into(); }
    }
    let (path, frag) = match url.split_once('#') { Some((p, f)) => (p, Some(f)), None => (url, None) };
    let rooted = if path.starts_with('/') { path.to_string() } else { format!("/{path}") };
    // the first path segment is a page name and gets normalised
    let body = &rooted[1..];
    let (first, tail) = match body.find('/') { Some(i) => (&body[..i], &body[i..]), None => (body, "") };
    let mut page = first.to_string();
    wikidot_normalize::normalize(&mut page);
    let mut out = format!("/{page}{tail}");
    if let Some(f) = frag { out.push('#'); out.push_str(f); }
    out
}

thread_local! { static WORD: regex::Regex = regex::Regex::new(r"^[\w\-]+$").unwrap(); }
fn scheme_is_word(s: &str) -> bool { WORD.with(|w| w.is_match(s)) }

fn el(tag: &str, attrs: Vec<(&str, String)>, kids: Vec<Node>) -> Node {
    Node::El { tag: tag.into(), attrs: attrs.into_iter().map(|(k, v)| (k.to_string(), v)).collect(), kids }
}
fn txt(s: &str) -> Vec<Node> { let mut v = vec![]; push_text(&mut v, &s.replace('\0', " ")); v }
fn cls(c: &str) -> Vec<(&'static str, String)> { vec![("class", c.to_string())] }

/// An element which also carries attributes written by the author: the
/// renderer's own come first and are kept, same-named ones are joined.
fn elm(tag: &str, own: Vec<(&str, String)>, user: &AttributeMap, kids: Vec<Node>) -> Node {
    let mut attrs: Vec<(String, String)> = own.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    for (k, v) in user.get() {
        let v = v.replace('\0', " ");
        match attrs.iter_mut().find(|(n, _)| n == k) {
            Some((_, o)) => { let j = format!("{o} {v}"); *o = j; }
            None => attrs.push((k.to_string(), v)),
        }
    }
    Node::El { tag: tag.into(), attrs, kids }
}

impl<'a> Ref<'a> {
    pub fn new(tree: &'a SyntaxTree<'a>, info: &'a PageInfo<'a>, st: &'a WikitextSettings) -> Self {
        Ref { tree, info, st, internal: vec![], external: vec![], scopes: vec![], toc: 0, equation: 1, footnote: 1, random: 0, tooltip: false }
    }
    pub fn document(&mut self) -> Node {
        let tree = self.tree;
        el("wj-body", cls("wj-body"), self.els(&tree.elements))
    }
    fn rid(&mut self) -> String { self.random += 1; format!("wj-id-{}", self.random) }
    pub fn els(&mut self, es: &[Element]) -> Vec<Node> {
        let mut out = vec![];
        for e in es { for n in self.one(e) { match n { Node::Text(t) => push_text(&mut out, &t), n => out.push(n) } } }
        out
    }
    fn link(&mut self, l: &LinkLocation) {
        match l {
            LinkLocation::Page(p) => self.internal.push(p.to_owned()),
            LinkLocation::Url(u) => {
                if u == "javascript:;" || u.starts_with('#') { return; }
                let u = u.strip_prefix('/').unwrap_or(u);
                if is_url(u) { self.external.push(u.to_string()) } else { self.internal.push(PageRef { site: None, page: u.to_string().into() }) }
            }
        }
    }
    fn url_of(&self, l: &LinkLocation) -> String {
        match l {
            LinkLocation::Url(u) => href(u),
            LinkLocation::Page(p) => match &p.site {
                None => href(&p.page),
                Some(s) => { let mut q = p.page.to_string(); wikidot_normalize::normalize(&mut q); format!("https://{s}.wikijump.com/{q}") }
            },
        }
    }
    fn sprite(&self, id: &str) -> Node {
        el("svg", vec![("class", format!("wj-sprite sprite-{id}")), ("viewBox", if id == "wj-karma" { "0 0 64 114" } else { "0 0 24 24" }.into())],
           vec![el("use", vec![("href", format!("/files--static/media/ui.svg#{id}"))], vec![])])
    }
    pub fn label(&self, link: &LinkLocation, label: &LinkLabel) -> String {
        let direct = |link: &LinkLocation| match link { LinkLocation::Url(u) => u.to_string(), LinkLocation::Page(p) => p.page.to_string() };
        match label {
            LinkLabel::Text(t) => t.to_string(),
            LinkLabel::Url(Some(t)) => t.to_string(),
            LinkLabel::Url(None) => direct(link),
            LinkLabel::Page => match link { LinkLocation::Url(u) => u.to_string(), LinkLocation::Page(p) => format!("TODO: actual title ({} {})", p.site.as_deref().unwrap_or(&self.info.site), p.page) },
        }
    }
    fn one(&mut self, e: &Element) -> Vec<Node> {
        use Element as E;
        match e {
            E::Text(t) => txt(t),
            E::Raw(t) => vec![el("span", cls("wj-raw"), txt(t))],
            E::Email(t) => vec![el("span", cls("wj-email"), txt(t))],
            E::Variable(n) => { let v = self.scopes.iter().rev().find_map(|s| s.get(n.as_ref()).cloned()); txt(&v.unwrap_or_else(|| format!("{{${n}}}"))) }
            E::Include { variables, elements, .. } => {
                self.scopes.push(variables.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect());
                let r = self.els(elements); self.scopes.pop(); r
            }
            E::Module(m) => vec![el("p", vec![], txt(&format!("TODO: module {}", m.name())))],
            E::LineBreak => vec![el("br", vec![], vec![])],
            E::LineBreaks(n) => (0..n.get()).map(|_| el("br", vec![], vec![])).collect(),
            E::HorizontalRule => vec![el("hr", vec![], vec![])],
            E::ClearFloat(c) => vec![el("div", cls(&format!("wj-clear-float wj-clear-float-{}", match c { ClearFloat::Left => "left", ClearFloat::Right => "right", ClearFloat::Both => "both" })), vec![])],
            E::Style(_) => vec![el("style", vec![], vec![])],
            E::Color { color, elements } => { let k = self.els(elements); vec![el("span", vec![("style", format!("color: {};", color.replace('\0', " ")))], k)] }
            E::AnchorName(id) => vec![el("a", vec![("id", id.replace('\0', " "))], vec![])],
            E::Anchor { target, attributes, elements } => {
                let mut own = cls("wj-anchor"); if let Some(t) = target { own.push(("target", target_value(*t).into())); }
                let k = self.els(elements); vec![elm("a", own, attributes, k)]
            }
            E::Link { ltype, link, extra, label, target } => {
                self.link(link);
                let base = self.url_of(link); let rest = if base == "javascript:;" { "" } else { extra.as_deref().unwrap_or("") };
                let url = format!("{base}{rest}").replace('\0', " ");
                let class = match link { LinkLocation::Url(u) if u == "javascript:;" || u.starts_with('#') => "wj-link-anchor", LinkLocation::Url(u) if u.starts_with('/') => "wj-link-internal", LinkLocation::Url(_) => "wj-link-external", LinkLocation::Page(_) => "wj-link-internal" };
                let (lt, iw) = match ltype { LinkType::Direct => ("direct", ""), LinkType::Page => ("page", ""), LinkType::Interwiki => ("interwiki", " wj-link-interwiki"), LinkType::Anchor => ("anchor", ""), LinkType::TableOfContents => ("table-of-contents", "") };
                let mut at = vec![("href", url), ("class", format!("wj-link {class}{iw}")), ("data-link-type", lt.to_string())];
                if let Some(t) = target { at.push(("target", target_value(*t).into())); }
                let l = self.label(link, label); vec![el("a", at, txt(&l))]
            }
            E::Image { source, link, alignment, attributes } => {
                let f = |site: &str, page: &str, file: &str| format!("https://{site}.wjfiles.com/local--files/{page}/{file}");
                let local = self.st.allow_local_paths;
                let url = match source {
                    ImageSource::Url(u) => Some(u.to_string()),
                    _ if !local => None,
                    ImageSource::File1 { file } => Some(f(&self.info.site, &self.info.page, file)),
                    ImageSource::File2 { page, file } => Some(f(&self.info.site, page, file)),
                    ImageSource::File3 { site, page, file } => Some(f(site, page, file)),
                };
                let Some(url) = url else { return vec![el("div", cls("wj-error-block"), txt("No images in this context"))] };
                let c = match alignment { None => "wj-image-container".into(), Some(a) => format!("wj-image-container wj-{}-{}", if a.float { "float" } else { "align" }, al(a.align)) };
                let img = elm("img", vec![("class", "wj-image".into()), ("src", url.replace('\0', " ")), ("crossorigin", "".into())], attributes, vec![]);
                let inner = match link { Some(l) => el("a", vec![("href", self.url_of(l).replace('\0', " "))], vec![img]), None => img };
                vec![el("div", cls(&c), vec![inner])]
            }
            E::List { ltype, items, attributes } => { let k = self.items(items); vec![elm(if *ltype == ListType::Numbered { "ol" } else { "ul" }, vec![], attributes, k)] }
            E::DefinitionList(items) => { let mut k = vec![]; for i in items { let a = self.els(&i.key_elements); let b = self.els(&i.value_elements); k.push(el("dt", vec![], a)); k.push(el("dd", vec![], b)); } vec![el("dl", vec![], k)] }
            E::RadioButton { name, checked, attributes } => { let mut own = vec![("name", name.replace('\0', " ")), ("type", "radio".into())]; if *checked { own.push(("checked", "".into())); } vec![elm("input", own, attributes, vec![])] }
            E::CheckBox { checked, attributes } => { let mut own = vec![("type", "checkbox".to_string())]; if *checked { own.push(("checked", "".into())); } vec![elm("input", own, attributes, vec![])] }
            E::Collapsible { elements, attributes, start_open, show_text, hide_text, show_top, show_bottom } => {
                let (show, hide) = (show_text.as_deref().unwrap_or("+ open block"), hide_text.as_deref().unwrap_or("- hide block"));
                let mut own = cls("wj-collapsible");
                if *start_open { own.push(("open", "".into())); } if *show_top { own.push(("data-show-top", "".into())); } if *show_bottom { own.push(("data-show-bottom", "".into())); }
                let body = self.els(elements);
                let h = |c: &str, t: &str| el("span", cls(c), txt(t));
                let mut k = vec![el("summary", cls("wj-collapsible-button wj-collapsible-button-top"), vec![h("wj-collapsible-show-text", show), h("wj-collapsible-hide-text", hide)]), el("div", cls("wj-collapsible-content"), body)];
                if *show_bottom { k.push(el("wj-collapsible-button-bottom", cls("wj-collapsible-button wj-collapsible-button-bottom"), vec![h("wj-collapsible-hide-text", hide)])); }
                vec![elm("details", own, attributes, k)]
            }
            E::TableOfContents { align, attributes } => {
                let ids = self.st.use_true_ids;
                let tree = self.tree;
                let idv = |s: &str| if ids { vec![("id", s.to_string())] } else { vec![] };
                let entries = self.els(&tree.table_of_contents);
                let mut own = idv("wj-toc"); if let Some(a) = align { own.push(("class", format!("wj-float-{}", al(*a)))); }
                vec![elm("div", own, attributes, vec![
                    el("div", idv("wj-toc-action-bar"), vec![el("a", vec![("href", "javascript:;".into()), ("onclick", "WIKIJUMP.page.listeners.foldToc(event)".into())], vec![])]),
                    el("div", cls("title"), txt("Table of Contents")),
                    el("div", idv("wj-toc-list"), entries)])]
            }
            E::Footnote => {
                if self.tooltip { return vec![]; }
                let n = self.footnote; self.footnote += 1;
                let tree = self.tree;
                let body = self.els(&tree.footnotes[n - 1]);
                let label = format!("Footnote {n}.");
                vec![el("span", cls("wj-footnote-ref"), vec![
                    el("wj-footnote-ref-marker", vec![("class", "wj-footnote-ref-marker".into()), ("role", "link".into()), ("aria-label", label.clone()), ("data-id", n.to_string())], txt(&n.to_string())),
                    el("span", vec![("class", "wj-footnote-ref-tooltip".into()), ("aria-hidden", "true".into())], vec![
                        el("span", cls("wj-footnote-ref-tooltip-label"), txt(&label)), el("span", cls("wj-footnote-ref-contents"), body)])])]
            }
            E::FootnoteBlock { title, hide } => {
                let tree = self.tree;
                if *hide || tree.footnotes.is_empty() { return vec![]; }
                let mut k = vec![];
                for (i, f) in tree.footnotes.iter().enumerate() {
                    let n = (i + 1).to_string();
                    let body = self.els(f);
                    k.push(el("li", vec![("class", "wj-footnote-list-item".into()), ("data-id", n.clone())], vec![
                        el("wj-footnote-list-item-marker", vec![("class", "wj-footnote-list-item-marker".into()), ("type", "button".into()), ("role", "link".into())], vec![Node::Text(n), el("span", cls("wj-footnote-sep"), txt("."))]),
                        el("span", cls("wj-footnote-list-item-contents"), body)]));
                }
                vec![el("div", cls("wj-footnote-list"), vec![el("div", cls("wj-title"), txt(title.as_deref().unwrap_or("Footnotes"))), el("ol", vec![], k)])]
            }
            E::BibliographyCite { label, brackets } => {
                let tree = self.tree;
                // the first entry with this label, over all bibliographies in order
                let mut found = None;
                let mut index = 0;
                'out: while index < self.bib_count() {
                    for (i, (l, es)) in tree.bibliographies.get_bibliography(index).slice().iter().enumerate() { if l == label { found = Some((i + 1, es)); break 'out; } }
                    index += 1;
                }
                let Some((n, es)) = found else { return vec![el("span", cls("wj-error-inline"), txt("Bibliography item not found"))] };
                let text = format!("Reference {n}.");
                let mut k = vec![];
                if *brackets { push_text(&mut k, "["); }
                k.push(el("wj-bibliography-ref-marker", vec![("class", "wj-bibliography-ref-marker".into()), ("role", "link".into()), ("aria-label", text.clone()), ("data-id", n.to_string())], txt(&n.to_string())));
                if *brackets { push_text(&mut k, "]"); }
                if !self.tooltip {
                    self.tooltip = true;
                    let body = self.els(es);
                    self.tooltip = false;
                    k.push(el("span", vec![("class", "wj-bibliography-ref-tooltip".into()), ("aria-hidden", "true".into())], vec![
                        el("span", cls("wj-bibliography-ref-tooltip-label"), txt(&text)), el("span", cls("wj-bibliography-ref-contents"), body)]));
                }
                vec![el("span", cls("wj-bibliography-ref"), k)]
            }
            E::BibliographyBlock { index, title, hide } => {
                if *hide { return vec![]; }
                let tree = self.tree;
                let mut k = vec![el("div", cls("wj-bibliography-title title"), txt(title.as_deref().unwrap_or("Bibliography")))];
                for (i, (_, es)) in tree.bibliographies.get_bibliography(*index).slice().iter().enumerate() {
                    let (a, b) = (index + 1, i + 1);
                    let mut body = vec![el("wj-bibliography-item-marker", vec![("class", "wj-bibliography-item-marker".into()), ("type", "button".into()), ("role", "link".into())], vec![Node::Text(b.to_string()), el("span", cls("wj-bibliography-sep"), txt("."))])];
                    body.extend(self.els(es));
                    k.push(el("div", vec![("class", "wj-bibliography-item bibitem".into()), ("id", format!("wj-bibliography-item-{a}-{b} bibitem-{a}-{b}"))], body));
                }
                vec![el("div", cls("wj-bibliography bibitems"), k)]
            }
            E::User { name, show_avatar } => {
                let mut k = vec![];
                if *show_avatar {
                    let dummy = ftml::data::UserInfo::dummy();
                    k.push(el("span", vec![("class", "wj-karma".into()), ("data-karma", dummy.user_karma.to_string())], vec![self.sprite("wj-karma")]));
                    k.push(el("img", vec![("class", "wj-user-info-avatar".into()), ("src", dummy.user_avatar_data.to_string())], vec![]));
                }
                k.push(el("span", cls("wj-user-info-name"), txt(name)));
                vec![el("span", cls("wj-user-info"), vec![el("a", vec![("class", "wj-user-info-link".into()), ("href", format!("/user:info/{name}").replace('\0', " "))], k)])]
            }
            E::Date { value, hover, .. } => vec![el("span", vec![("class", if *hover { "wj-date wj-date-hover" } else { "wj-date" }.into()), ("data-timestamp", value.timestamp().to_string()), ("data-delta", "*".into())], vec![])],
            E::Code { contents, language } => {
                let lang = language.as_deref();
                let mut class = format!("wj-code wj-language-{}", lang.unwrap_or("none")); class.make_ascii_lowercase();
                vec![el("wj-code", vec![("class", class.replace('\0', " "))], vec![
                    el("div", cls("wj-code-panel"), vec![
                        el("wj-code-copy", vec![("type", "button".into()), ("class", "wj-code-copy".into()), ("title", "Copy to Clipboard".into())], vec![self.sprite("wj-clipboard"), self.sprite("wj-clipboard-success")]),
                        el("span", cls("wj-code-language"), txt(lang.unwrap_or("")))]),
                    el("pre", vec![], vec![el("code", vec![], txt(contents))])])]
            }
            E::Math { name, latex_source } => {
                let n = self.equation; self.equation += 1;
                let mut at = cls("wj-math wj-math-block"); if let Some(x) = name { at.push(("data-name", x.replace('\0', " "))); }
                vec![el("div", at, vec![
                    el("span", cls("wj-equation-number"), vec![el("span", cls("wj-equation-paren wj-equation-paren-open"), txt("(")), Node::Text(n.to_string()), el("span", cls("wj-equation-paren wj-equation-paren-close"), txt(")"))]),
                    el("code", vec![("class", "wj-math-source wj-hidden".into()), ("aria-hidden", "true".into())], txt(latex_source))])]
            }
            E::MathInline { latex_source } => vec![el("span", cls("wj-math wj-math-inline"), vec![el("code", vec![("class", "wj-math-source wj-hidden".into()), ("aria-hidden", "true".into())], txt(latex_source))])],
            E::EquationReference(name) => vec![el("span", cls("wj-equation-ref"), vec![
                el("wj-equation-ref-marker", vec![("class", "wj-equation-ref-marker".into()), ("type", "button".into()), ("data-name", name.replace('\0', " "))], txt(name)),
                el("span", vec![("class", "wj-equation-ref-tooltip".into()), ("aria-hidden", "true".into())], vec![])])],
            E::Embed(em) => {
                let fr = |url: String, allow: &str| el("iframe", vec![("src", url.replace('\0', " ")), ("frameborder", "0".into()), ("allow", allow.into()), ("allowfullscreen", "".into())], vec![]);
                let k = match em {
                    Embed::Youtube { video_id } => fr(format!("https://www.youtube.com/embed/{video_id}"), "accelerometer; autoplay; clipboard-write; encrypted-media; gyroscope; picture-in-picture"),
                    Embed::Vimeo { video_id } => fr(format!("https://player.vimeo.com/video/{video_id}"), "autoplay; fullscreen; picture-inpicture"),
                    Embed::GithubGist { username, hash } => el("script", vec![("src", format!("https://gist.github.com/{username}/{hash}.js").replace('\0', " "))], vec![]),
                    Embed::GitlabSnippet { snippet_id } => el("script", vec![("src", format!("https://gitlab.com/-/snippets/{snippet_id}.js").replace('\0', " "))], vec![]),
                };
                vec![el("div", cls("wj-embed"), vec![k])]
            }
            E::Html { .. } => vec![el("iframe", vec![("src", "https://example.com/".into()), ("crossorigin", "".into())], vec![])],
            E::Iframe { url, attributes } => vec![elm("iframe", vec![("src", url.replace('\0', " ")), ("crossorigin", "".into())], attributes, vec![])],
            E::TabView(tabs) => {
                let bids: Vec<String> = tabs.iter().map(|_| self.rid()).collect();
                let tids: Vec<String> = tabs.iter().map(|_| self.rid()).collect();
                let mut b = vec![]; let mut p = vec![];
                for (i, t) in tabs.iter().enumerate() {
                    b.push(el("wj-tabs-button", vec![("class", "wj-tabs-button".into()), ("id", bids[i].clone()), ("role", "tab".into()), ("aria-label", t.label.replace('\0', " ")), ("aria-selected", (i == 0).to_string()), ("aria-controls", tids[i].clone()), ("tabindex", if i == 0 { "0" } else { "-1" }.into())], txt(&t.label)));
                }
                for (i, t) in tabs.iter().enumerate() {
                    let body = self.els(&t.elements);
                    let mut at = vec![("class", "wj-tabs-panel".to_string()), ("id", tids[i].clone()), ("role", "tabpanel".into()), ("aria-labelledby", bids[i].clone()), ("tabindex", "0".into())];
                    if i > 0 { at.push(("hidden", "".into())); }
                    p.push(el("div", at, body));
                }
                vec![el("wj-tabs", cls("wj-tabs"), vec![el("div", vec![("class", "wj-tabs-button-list".into()), ("role", "tablist".into())], b), el("div", cls("wj-tabs-panel-list"), p)])]
            }
            E::Table(t) => {
                let mut rows = vec![];
                for r in &t.rows {
                    let mut cells = vec![];
                    for c in &r.cells {
                        let mut own = vec![];
                        if c.column_span.get() > 1 { own.push(("colspan", c.column_span.to_string())); }
                        if let Some(a) = c.align { own.push(("class", format!("wj-align-{}", al(a)))); }
                        let k = self.els(&c.elements);
                        cells.push(elm(if c.header { "th" } else { "td" }, own, &c.attributes, k));
                    }
                    rows.push(elm("tr", vec![], &r.attributes, cells));
                }
                vec![elm("table", vec![], &t.attributes, vec![el("tbody", vec![], rows)])]
            }
            E::Container(c) => {
                use ContainerType as C;
                let (tag, own): (&str, Vec<(&str, String)>) = match c.ctype() {
                    C::Bold => ("strong", vec![]), C::Italics => ("em", vec![]), C::Underline => ("u", vec![]), C::Superscript => ("sup", vec![]), C::Subscript => ("sub", vec![]), C::Strikethrough => ("s", vec![]),
                    C::Monospace => ("code", cls("wj-monospace")), C::Span => ("span", vec![]), C::Div => ("div", vec![]), C::Mark => ("mark", vec![]), C::Blockquote => ("blockquote", vec![]), C::Insertion => ("ins", vec![]), C::Deletion => ("del", vec![]),
                    C::Hidden => ("span", cls("wj-hidden")), C::Invisible => ("span", cls("wj-invisible")), C::Size => ("span", vec![]), C::Ruby => ("ruby", vec![]), C::RubyText => ("rt", vec![]), C::Paragraph => ("p", vec![]),
                    C::Align(a) => ("div", cls(match a { Alignment::Left => "wj-align-left", Alignment::Right => "wj-align-right", Alignment::Center => "wj-align-center", Alignment::Justify => "wj-align-justify" })),
                    C::Header(h) => {
                        let tag = ["h1", "h2", "h3", "h4", "h5", "h6"][h.level.value() as usize - 1];
                        if h.has_toc { let n = self.toc; self.toc += 1; let id = if self.st.use_true_ids { format!("toc{n}") } else { self.rid() }; (tag, vec![("id", id)]) } else { (tag, vec![]) }
                    }
                };
                let k = self.els(c.elements());
                let node = elm(tag, own, c.attributes(), k);
                if c.ctype() == C::RubyText { vec![el("rp", vec![], txt("(")), node, el("rp", vec![], txt(")"))] } else { vec![node] }
            }
            E::Partial(_) => vec![el("PARTIAL", vec![], vec![])],
        }
    }
    fn items(&mut self, items: &[ListItem]) -> Vec<Node> {
        let mut out = vec![];
        for i in items { match i { ListItem::Elements { attributes, elements } => { let k = self.els(elements); out.push(elm("li", vec![], attributes, k)) } ListItem::SubList { element } => out.extend(self.one(element)) } }
        out
    }
    fn bib_count(&self) -> usize { self.tree.bibliographies.next_index() }
}
pub fn al(a: Alignment) -> &'static str { match a { Alignment::Left => "left", Alignment::Right => "right", Alignment::Center => "center", Alignment::Justify => "justify" } }
pub fn target_value(t: AnchorTarget) -> &'static str { match t { AnchorTarget::NewTab => "_blank", AnchorTarget::Parent => "_parent", AnchorTarget::Top => "_top", AnchorTarget::Same => "_self" } }
