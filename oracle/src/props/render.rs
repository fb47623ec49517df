//! Monitors for the HTML renderer.
use crate::{case::*, env::{self, *}, gen, html, refhtml::Ref, rng::Rng};
use serde_json::{json, Value};

fn doc(r: &mut Rng) -> (String, Value) { (gen::document(r), env::any(r)) }

fn faithful(text: &str, a: &Value) -> Outcome {
    with(text, a, |d| {
        let real = d.nodes()?;
        let mut r = Ref::new(d.tree, d.info, d.st);
        let want = r.document();
        if let Some(e) = html::diff(&html::canonical(&real), &html::canonical(&[want]), "") { return Err(format!("rendering differs from the tree: {e}")); }
        Ok(d.tree.elements.len() > 1)
    })
}

/// Metadata, whatever its names and values.
fn meta_gen(r: &mut Rng) -> (String, Value) {
    let mut word = |r: &mut Rng| { let mut s = String::new(); for _ in 0..r.below(5) { s.push_str(*r.pick(&["a", "&", "<", ">", "\"", "'", "&amp;", "é", " ", "/>", "=", "og:title", "-->", "\n"])); } s };
    let (n, v) = (word(r), word(r));
    (v, json!({"name": n, "kind": r.below(3)}))
}
fn meta(value: &str, a: &Value) -> Outcome {
    use ftml::render::html::{HtmlMeta, HtmlMetaType::*};
    let name = a["name"].as_str().unwrap_or("");
    let (tag_type, key) = [(Name, "name"), (HttpEquiv, "http-equiv"), (Property, "property")][a["kind"].as_u64().unwrap_or(0) as usize % 3];
    let mut b = String::from("x");
    HtmlMeta { tag_type, name: name.into(), value: value.into() }.render(&mut b);
    let mut nodes = html::parse(&b.replace(" />", ">"))?;
    nodes.retain(|n| matches!(n, html::Node::El { .. }));
    let want = html::parse(&format!("<meta {key}=\"{}\" content=\"{}\">", esc(name), esc(value)))?;
    if !b.starts_with("x<meta ") || html::diff(&nodes, &want, "").is_some() { return Err(format!("metadata is rendered as {b:?}")); }
    Ok(value.len() + name.len() > 0)
}
fn esc(s: &str) -> String { s.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), '"' => "&quot;".into(), '\'' => "&#39;".into(), c => c.to_string() }).collect() }

pub fn c02() -> Vec<Sub> {
    vec![Sub { name: "faithful", weight: 12, gen: doc, run: faithful, fixed: none }, Sub { name: "meta", weight: 1, gen: meta_gen, run: meta, fixed: none }]
}
