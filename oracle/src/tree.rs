//! Generic access to syntax trees.
use ftml::tree::*;

/// The element lists directly inside an element, in document order.
pub fn lists<'a, 't>(e: &'a Element<'t>) -> Vec<&'a [Element<'t>]> {
    use Element as E;
    match e {
        E::Container(c) => vec![c.elements()],
        E::Table(t) => t.rows.iter().flat_map(|r| r.cells.iter().map(|c| &c.elements[..])).collect(),
        E::TabView(t) => t.iter().map(|t| &t.elements[..]).collect(),
        E::Anchor { elements, .. } | E::Collapsible { elements, .. } | E::Color { elements, .. } | E::Include { elements, .. } => vec![elements],
        E::List { items, .. } => items.iter().map(|i| match i { ListItem::Elements { elements, .. } => &elements[..], ListItem::SubList { element } => std::slice::from_ref(&**element) }).collect(),
        E::DefinitionList(d) => d.iter().flat_map(|d| [&d.key_elements[..], &d.value_elements[..]]).collect(),
        _ => vec![],
    }
}

/// Pre-order, not entering footnotes or bibliographies.
pub fn walk<'a, 't>(es: &'a [Element<'t>], f: &mut dyn FnMut(&'a Element<'t>)) {
    for e in es { f(e); for l in lists(e) { walk(l, f); } }
}

/// Pre-order over the whole document: the contents of a footnote come where
/// its marker is, the entries of a bibliography where its block is.
pub fn walk_document<'a, 't>(tree: &'a SyntaxTree<'t>, f: &mut dyn FnMut(&'a Element<'t>)) {
    fn go<'a, 't>(tree: &'a SyntaxTree<'t>, es: &'a [Element<'t>], note: &mut usize, f: &mut dyn FnMut(&'a Element<'t>)) {
        for e in es {
            // the contents of a footnote are parsed before its marker exists
            match e {
                Element::Footnote => { let n = *note; *note += 1; f(e); if let Some(es) = tree.footnotes.get(n) { go(tree, es, note, f); } }
                Element::BibliographyBlock { index, .. } => { f(e); if *index < tree.bibliographies.next_index() { for (_, es) in tree.bibliographies.get_bibliography(*index).slice() { go(tree, es, note, f); } } }
                _ => { f(e); for l in lists(e) { go(tree, l, note, f); } }
            }
        }
    }
    go(tree, &tree.elements, &mut 0, f);
}

pub fn attributes<'a, 't>(e: &'a Element<'t>) -> Vec<&'a AttributeMap<'t>> {
    use Element as E;
    match e {
        E::Container(c) => vec![c.attributes()],
        E::Table(t) => { let mut v = vec![&t.attributes]; for r in &t.rows { v.push(&r.attributes); for c in &r.cells { v.push(&c.attributes); } } v }
        E::Anchor { attributes, .. } | E::Image { attributes, .. } | E::RadioButton { attributes, .. } | E::CheckBox { attributes, .. } | E::Collapsible { attributes, .. } | E::TableOfContents { attributes, .. } | E::Iframe { attributes, .. } => vec![attributes],
        E::List { attributes, items, .. } => { let mut v = vec![attributes]; for i in items { if let ListItem::Elements { attributes, .. } = i { v.push(attributes); } } v }
        _ => vec![],
    }
}

pub fn count(es: &[Element], p: &dyn Fn(&Element) -> bool) -> usize { let mut n = 0; walk(es, &mut |e| if p(e) { n += 1 }); n }
