//! Strict reader for the HTML dialect the renderer is allowed to emit.
//!
//! Anything a browser would have to guess about (unquoted attribute values,
//! stray '<', unknown entities, unbalanced tags) is an error here.

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Node {
    El { tag: String, attrs: Vec<(String, String)>, kids: Vec<Node> },
    Text(String),
}

pub const VOID: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];

impl Node {
    pub fn tag(&self) -> &str { match self { Node::El { tag, .. } => tag, Node::Text(_) => "" } }
    pub fn attr(&self, k: &str) -> Option<&str> {
        match self { Node::El { attrs, .. } => attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str()), _ => None }
    }
    pub fn attrs(&self) -> &[(String, String)] { match self { Node::El { attrs, .. } => attrs, _ => &[] } }
    pub fn kids(&self) -> &[Node] { match self { Node::El { kids, .. } => kids, _ => &[] } }
    pub fn has_class(&self, c: &str) -> bool { self.attr("class").map(|v| v.split(' ').any(|x| x == c)).unwrap_or(false) }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) { f(self); for k in self.kids() { k.walk(f); } }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.walk(&mut |n| if let Node::Text(t) = n { s.push_str(t) });
        s
    }
}

pub fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let e = rest.find(';').ok_or_else(|| format!("bare '&' in {s:?}"))?;
        let c = match &rest[..=e] { "&lt;" => '<', "&gt;" => '>', "&amp;" => '&', "&quot;" => '"', "&#39;" => '\'', x => return Err(format!("unknown entity {x:?} in {s:?}")) };
        out.push(c);
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    if out.contains('\0') { return Err("NUL character in output".into()); }
    Ok(out)
}

fn name_char(c: char) -> bool { c.is_ascii_alphanumeric() || c == '-' }

pub fn parse(input: &str) -> Result<Vec<Node>, String> {
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<Node>)> = vec![(String::new(), vec![], vec![])];
    let mut rest = input;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("unterminated end tag")?;
            let name = &r[..e];
            let (t, a, k) = stack.pop().unwrap();
            if stack.is_empty() || t != name { return Err(format!("end tag </{name}> does not match <{t}>")); }
            stack.last_mut().unwrap().2.push(Node::El { tag: t, attrs: a, kids: k });
            rest = &r[e + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let e = r.find(|c| !name_char(c)).ok_or("unterminated tag")?;
            let tag = r[..e].to_string();
            if !tag.starts_with(|c: char| c.is_ascii_lowercase()) { return Err(format!("raw '<' in output near {:?}", &rest.chars().take(40).collect::<String>())); }
            let mut r = &r[e..];
            let mut attrs: Vec<(String, String)> = vec![];
            loop {
                if let Some(x) = r.strip_prefix('>') { r = x; break; }
                let x = r.strip_prefix(' ').ok_or_else(|| format!("malformed tag <{tag} near {:?}", r.chars().take(30).collect::<String>()))?;
                let e = x.find(|c| !name_char(c)).ok_or("unterminated attribute")?;
                let key = x[..e].to_string();
                if key.is_empty() { return Err(format!("malformed attribute in <{tag}> near {:?}", x.chars().take(30).collect::<String>())); }
                r = &x[e..];
                let mut val = String::new();
                if let Some(x) = r.strip_prefix("=\"") {
                    let e = x.find('"').ok_or("unterminated attribute value")?;
                    if x[..e].contains('<') || x[..e].contains('>') { return Err(format!("unescaped angle bracket in attribute {key} of <{tag}>")); }
                    if x[..e].contains('\'') { return Err(format!("unescaped quote in attribute {key} of <{tag}>")); }
                    val = decode(&x[..e])?;
                    r = &x[e + 1..];
                }
                if attrs.iter().any(|(k, _)| *k == key) { return Err(format!("attribute {key} given twice in <{tag}>")); }
                attrs.push((key, val));
            }
            rest = r;
            if VOID.contains(&tag.as_str()) {
                stack.last_mut().unwrap().2.push(Node::El { tag, attrs, kids: vec![] });
            } else if tag == "style" || tag == "wj-math-ml" {
                // style: raw text for a browser. wj-math-ml: opaque output of the MathML library.
                let end = if tag == "style" { "</" } else { "</wj-math-ml>" };
                let e = rest.find(end).ok_or("unterminated raw element")?;
                let kids = vec![Node::Text(rest[..e].to_string())];
                let close = format!("</{tag}>");
                rest = rest[e..].strip_prefix(&close[..]).ok_or_else(|| format!("'</' inside of <{tag}>"))?;
                stack.last_mut().unwrap().2.push(Node::El { tag, attrs, kids });
            } else {
                stack.push((tag, attrs, vec![]));
            }
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            let raw = &rest[..e];
            if raw.contains('>') || raw.contains('"') || raw.contains('\'') { return Err(format!("unescaped special character in text {raw:?}")); }
            let t = decode(raw)?;
            push_text(&mut stack.last_mut().unwrap().2, &t);
            rest = &rest[e..];
        }
    }
    if stack.len() != 1 { return Err(format!("<{}> is never closed", stack.last().unwrap().0)); }
    Ok(stack.pop().unwrap().2)
}

pub fn push_text(kids: &mut Vec<Node>, t: &str) {
    if t.is_empty() { return; }
    if let Some(Node::Text(s)) = kids.last_mut() { s.push_str(t); return; }
    kids.push(Node::Text(t.to_string()));
}

/// Makes two renderings comparable: generated ids are numbered by first use,
/// attributes sorted, values that depend on the clock or on external
/// libraries (CSS printer, MathML, date formatting) masked.
pub fn canonical(nodes: &[Node]) -> Vec<Node> {
    let mut ids: std::collections::HashMap<String, usize> = Default::default();
    fn go(n: &Node, ids: &mut std::collections::HashMap<String, usize>) -> Node {
        match n {
            Node::Text(t) => Node::Text(t.clone()),
            Node::El { tag, attrs, kids } => {
                let mut at: Vec<(String, String)> = attrs.iter().map(|(k, v)| {
                    let v = if matches!(k.as_str(), "id" | "aria-controls" | "aria-labelledby") {
                        v.split(' ').map(|w| if w.starts_with("wj-id-") { let n = ids.len(); format!("@{}", ids.entry(w.to_string()).or_insert(n)) } else { w.to_string() }).collect::<Vec<_>>().join(" ")
                    } else if k == "data-delta" { "*".into() } else { v.clone() };
                    (k.clone(), v)
                }).collect();
                at.sort();
                let math = n.has_class("wj-math") && (tag == "div" || tag == "span");
                let masked = matches!(tag.as_str(), "style" | "wj-math-ml") || n.has_class("wj-date");
                let mut k: Vec<Node> = if masked { vec![] } else { kids.iter().map(|k| go(k, ids)).collect() };
                if math { if k.last().map(|l| l.tag() == "wj-math-ml" || l.has_class("wj-error-inline") || l.has_class("wj-error-block")).unwrap_or(false) { k.pop(); } }
                Node::El { tag: tag.clone(), attrs: at, kids: k }
            }
        }
    }
    nodes.iter().map(|n| go(n, &mut ids)).collect()
}

/// First difference between two canonical forests, for messages.
pub fn diff(a: &[Node], b: &[Node], path: &str) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => continue,
            (Some(Node::El { tag: t1, attrs: a1, kids: k1 }), Some(Node::El { tag: t2, attrs: a2, kids: k2 })) if t1 == t2 => {
                let p = format!("{path}/{t1}[{i}]");
                if a1 != a2 { return Some(format!("{p}: attributes {a1:?}, expected {a2:?}")); }
                return diff(k1, k2, &p);
            }
            (x, y) => { let s = |n: Option<&Node>| n.map(|n| { let s = format!("{n:?}"); s.chars().take(160).collect::<String>() }).unwrap_or("nothing".into()); return Some(format!("{path}[{i}]: {}, expected {}", s(x), s(y))); }
        }
    }
    None
}
