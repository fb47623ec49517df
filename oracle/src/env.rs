//! Runs the crate under test with page data and settings taken from a case.
use ftml::data::{PageInfo, ScoreValue};
use ftml::parsing::ParseError;
use ftml::prelude::*;
use ftml::render::html::{HtmlOutput, HtmlRender};
use ftml::render::text::TextRender;
use serde_json::{json, Value};
use std::borrow::Cow;

pub const MODES: [WikitextMode; 5] = [WikitextMode::Page, WikitextMode::Draft, WikitextMode::ForumPost, WikitextMode::DirectMessage, WikitextMode::List];

pub fn settings(a: &Value) -> WikitextSettings {
    let mode = MODES[a["mode"].as_u64().unwrap_or(0) as usize % 5];
    let layout = if a["wj"].as_bool().unwrap_or(false) { Layout::Wikijump } else { Layout::Wikidot };
    let mut s = WikitextSettings::from_mode(mode, layout);
    if let Some(b) = a["iso"].as_bool() { s.isolate_user_ids = b; }
    if let Some(b) = a["ids"].as_bool() { s.use_true_ids = b; }
    if let Some(b) = a["page_syntax"].as_bool() { s.enable_page_syntax = b; }
    if let Some(b) = a["local"].as_bool() { s.allow_local_paths = b; }
    s
}

pub fn info(a: &Value) -> PageInfo<'static> {
    let st = |k: &str, d: &str| Cow::Owned(a[k].as_str().unwrap_or(d).to_string());
    PageInfo {
        page: st("page", "some-page"),
        category: a["category"].as_str().map(|s| Cow::Owned(s.to_string())),
        site: st("site", "sandbox"),
        title: st("title", "Some Title"),
        alt_title: None,
        score: ScoreValue::Integer(69),
        tags: match a["tags"].as_array() { Some(t) => t.iter().map(|t| Cow::Owned(t.as_str().unwrap_or("").to_string())).collect(), None => vec![Cow::Borrowed("tale"), Cow::Borrowed("_cc")] },
        language: Cow::Borrowed("default"),
    }
}

/// Any mode, any layout.
pub fn any(r: &mut crate::rng::Rng) -> Value { json!({"mode": r.below(5), "wj": r.chance(1, 2)}) }

pub struct Doc<'a> { pub text: &'a str, pub tree: &'a SyntaxTree<'a>, pub errors: &'a [ParseError], pub info: &'a PageInfo<'a>, pub st: &'a WikitextSettings }
impl Doc<'_> {
    pub fn html(&self) -> HtmlOutput { HtmlRender.render(self.tree, self.info, self.st) }
    pub fn plain(&self) -> String { TextRender.render(self.tree, self.info, self.st) }
    pub fn nodes(&self) -> Result<Vec<crate::html::Node>, String> {
        let h = self.html();
        crate::html::parse(&h.body).map_err(|e| format!("malformed HTML: {e} in {:?}", clip(&h.body)))
    }
}

pub fn clip(s: &str) -> String { if s.chars().count() > 600 { s.chars().take(600).collect::<String>() + "…" } else { s.to_string() } }

/// Parses without preprocessing.
pub fn parsed<T>(text: &str, a: &Value, f: impl FnOnce(Doc) -> T) -> T {
    let (pi, st) = (info(a), settings(a));
    let tokens = ftml::tokenize(text);
    let (tree, errors) = ftml::parse(&tokens, &pi, &st).into();
    f(Doc { text, tree: &tree, errors: &errors, info: &pi, st: &st })
}

/// The documented pipeline: preprocess, tokenize, parse.
pub fn with<T>(text: &str, a: &Value, f: impl FnOnce(Doc) -> T) -> T {
    let mut t = text.to_string();
    ftml::preprocess(&mut t);
    parsed(&t, a, f)
}

pub fn html_of(text: &str, a: &Value) -> Result<Vec<crate::html::Node>, String> { with(text, a, |d| d.nodes()) }
