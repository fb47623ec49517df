//! Wikitext generators shared by the end-to-end contract monitors.
use crate::rng::Rng;

/// Token-level fragments: one per lexer alternative, plus text that the
/// escaping / URL / id code treats specially.
pub const FRAGS: &[&str] = &[
    "@@", "@<", ">@", "[!--", "--]", "https://example.com/a?b=c&d", "http://x", "ftp://f/g", "abc", "Zed9", "0", "12",
    "me@example.com", "{$var}", "{$x1}", "\"str\"", "\"a\\\"b\\n\"", "[", "[#", "[*", "[[", "[[/", "[[#", "[[*", "[[$", "[[[", "[[[*",
    "]", "]]", "$]]", "]]]", "((", "))", "((bibcite ", "((bibcite x))", "~~~~", "~~~~<", "~~~~>", "---", "----", "-----", "--", "~~", "<<", ">>", "|", "=", ":",
    "_", ">", ">>", "> ", "\n> ", "\n>> ", "+", "\n+ ", "\n++ ", "\n+++* ", "\n++++++ ", "\n* ", "\n # ", "\n# ", "\n * ", "\n  * ", "\n: ", " : ", "**", "//", "__", "^^", ",,", "##", "##red|", "{{", "}}",
    "*", "#", "||", "||<", "||>", "||=", "||~", "\n||", "||\n", "\n", "\n\n", "\n\n\n", " ", "  ", "\t", " _\n", "\\\n", "\\",
    "<", ">", "&", "'", "\"", "`", "``", "''", "...", ". . .", "<script>", "</style>", "&amp;", "\u{0}", "\u{a0}", "\u{2007}", "é", "日本", "💯", "\u{feff}", "\u{2028}",
    "javascript:alert(1)", "JavaScript:x", "data:text/html,x", "vbscript:x", "#anchor", "/local/path", "page:name", ":site:page", "wikipedia:SCP", "!wp:x", "mailto:x@y.z",
    "class", "style", "id", "onclick", "href", "src", "data-x", "aria-label", "colspan", "$1", "%%", "[[>]]", "[[<]]", "[[=]]", "[[==]]", "[[/>]]", "[[/<]]", "[[/=]]", "[[/==]]",
];

pub const WORDS: &[&str] = &["apple", "b", "C d", "x1", "é", "日本", "<i>", "a&b", "\"q\"", "it's", "1 < 2", "@", "--", "u-x", "toc0", "<!-- c -->", "&#106;", "</a>"];

pub const BODY_BLOCKS: &[&str] = &[
    "div", "div_", "span", "span_", "a", "a_", "anchor", "b", "bold", "strong", "i", "em", "italics", "u", "underline", "s", "strikethrough", "del", "ins", "deletion", "insertion",
    "sub", "subscript", "sup", "super", "superscript", "tt", "mono", "monospace", "mark", "highlight", "hidden", "invisible", "blockquote", "quote", "p", "paragraph",
    "size 50%", "collapsible", "ul", "ul_", "ol", "ol_", "li", "li_", "tabview", "tabs", "tab T", "table", "row", "cell", "hcell", "ruby", "rt", "footnote",
    "bibliography", "iftags +tale -x", "iftags zzz", "ifcategory _default", "ifcategory -x", "=", "<", ">", "==", "code", "code type=\"css\"", "code type=\"php\" name=\"n1\"", "html", "math", "math eq1", "module css", "module CSS", "later", "target x", "anchortarget x", "_", "embed",
];

pub const SINGLE_BLOCKS: &[&str] = &[
    "[[footnoteblock]]", "[[footnoteblock title=\"Fn\"]]", "[[footnoteblock hide=\"true\"]]", "[[toc]]", "[[f>toc]]", "[[f<toc]]", "[[lines 3]]", "[[newlines 100]]", "[[lines 101]]", "[[char amp]]", "[[char #60]]", "[[char lt]]", "[[char &#x3c;]]", "[[char #0]]",
    "[[checkbox]]", "[[*checkbox class=\"x\"]]", "[[radio n]]", "[[*radio-button n id=\"q\"]]", "[[user Bob]]", "[[*user Bob <b>]]", "[[date 0]]", "[[date 2020-01-01]]", "[[date 1600000000 tz=\"+8:00\" hover=\"false\"]]", "[[date 2001-09-11 format=\"%d\"]]", "[[date now tz=\"800\"]]",
    "[[eqref eq1]]", "[[equation x]]", "[[eref label-A]]", "[[iframe https://example.com/x]]", "[[iframe javascript:alert(1)]]", "[[iframe https://e.com/ width=\"5\" onload=\"x\"]]", "[[image a.png]]", "[[image https://e.com/i.png link=\"javascript:alert(1)\" alt=\"x\"]]", "[[=image /p/f.png]]", "[[f>image :first]]", "[[<image page/file.png link=\"#x\"]]", "[[image tickling.png link=\"data:text/html,x\" title=\"<\"]]",
    "[[embed youtube video=\"abc\"]]", "[[embed vimeo video=\"1&2\"]]", "[[include page]]", "[[include-elements page a=\"b\"]]", "[[include-messy page]]", "[[bibcite x]]", "[[bibcite_ x]]", "((bibcite x))", "((bibcite y))", "[[rb a|b]]", "[[ruby2 \"x\"|y]]", "[[rb a]]",
    "[[module Rate]]", "[[module PageTree root=\"a\"]]", "[[module Backlinks]]", "[[module Join]]", "[[module Categories]]", "[[module listusers users=\".\"]]", "[[# anchorname]]", "[[#anch2]]", "[[[page]]]", "[[[page|label]]]", "[[[page| ]]]", "[[[*page|l]]]", "[[[https://e.com|]]]", "[[[#a|]]]", "[[[javascript:alert(1)|x]]]", "[[[JavaScript:x|]]]", "[[[ data:text/html,x |y]]]", "[[[:site:page#frag|z]]]", "[[[/abs/path|]]]", "[[[page#x|]]]", "[[[category:page|]]]",
    "[https://e.com label]", "[*https://e.com label]", "[javascript:alert(1) label]", "[#top up]", "[*#top up]", "[!wp:Foo bar]", "[wikipedia:Foo bar]", "[/x y]", "[# null]", "https://e.com/<b>", "*https://e.com/x",
    "[[$ a < b $]]", "[[$ \\frac{1}{2} $]]", "@@<raw>&@@", "@<&lt;>@", "@@@@", "@<x>@", "[!-- c --]", "##blue|x##", "##123456|x##", "##red;x|<y>##", "{{mono}}", "--strike--", "a -- b", "\n----\n", "\n~~~~\n", "\n~~~~<\n", "\n+ Head\n", "\n++* Head2 <x>\n", "\n+++ **H** //3//\n", "\n: key : value\n", "\n: k2 : v2 **x**\n", "\n* item\n * sub\n# num\n", "\n> quote\n>> deep\n> back\n", "\n||~ h||c||\n||||x||\n", "\n||<l||>r||=c||\n", "_\n", "x@y.com", "<<", ">>", "...", "``q''", ",,`q',,",
    "[[button edit]]", "[[size 10px;color:red]]x[[/size]]", "\n[[toc]]\n",
];

pub const ATTRS: &[&str] = &[
    " class=\"c\"", " class=\"a&b <c>\"", " id=\"x\"", " id=\"u-x\"", " id=\"a b\"", " style=\"color:red\"", " style=\"a:url('x')\"", " onclick=\"alert(1)\"", " data-x=\"1\"", " data-a-b=\"q'\"", " data-a_b=\"2\"", " aria-label=\"lab\"", " href=\"javascript:alert(1)\"", " href=\"https://e.com\"", " href=\"page\"", " src=\"javascript:x\"", " title=\"<b>&quot;\"", " CLASS=\"up\"", " hidden=\"\"", " disabled=\"true\"", " checked=\"false\"", " colspan=\"2\"", " colspan=\"0\"", " rowspan=\"3\"", " show=\"S\"", " hide=\"H\"", " folded=\"no\"", " hideLocation=\"both\"", " srcdoc=\"<script>\"", " xmlns=\"x\"", " type=\"y\"", " name=\"nn\"", " target=\"_blank\"", " width=\"1\"", " for=\"x\"", " headers=\"h\"", " aria-labelledby=\"z\"",
];

pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(3) { s.push_str(*r.pick(WORDS)); if r.chance(1, 2) { s.push(' '); } }
    s
}

pub fn node(r: &mut Rng, depth: usize, out: &mut String) {
    match r.below(100) {
        0..=17 => out.push_str(&text(r)),
        18..=37 => out.push_str(*r.pick(FRAGS)),
        38..=60 => out.push_str(*r.pick(SINGLE_BLOCKS)),
        61..=70 if depth > 0 => {
            // paired inline formatting
            let d = *r.pick(&[("**", "**"), ("//", "//"), ("__", "__"), ("^^", "^^"), (",,", ",,"), ("--", "--"), ("{{", "}}"), ("##green|", "##"), ("[[[p|", "]]]"), ("[https://e.com ", "]"), ("@@", "@@"), ("@<", ">@"), ("||", "||\n"), ("\n> ", "\n"), ("\n* ", "\n"), ("\n+ ", "\n"), ("\n: ", " : v\n"), ("[!--", "--]"), ("((bibcite ", "))"), ("[[$", "$]]")]);
            out.push_str(d.0); nodes(r, depth - 1, out); out.push_str(d.1);
        }
        _ if depth > 0 => {
            let head = *r.pick(BODY_BLOCKS);
            let name = head.split(' ').next().unwrap();
            let nl = r.chance(1, 2);
            out.push_str("[["); out.push_str(head);
            if !head.contains(' ') || r.chance(1, 3) { for _ in 0..r.below(3) { out.push_str(*r.pick(ATTRS)); } }
            out.push_str("]]"); if nl { out.push('\n'); }
            match name {
                "ul" | "ol" | "ul_" | "ol_" => for _ in 0..1 + r.below(3) { if r.chance(4,5) { out.push_str("[[li]]"); nodes(r, depth - 1, out); out.push_str("[[/li]]"); } else { nodes(r, depth - 1, out); } },
                "tabview" | "tabs" => for _ in 0..1 + r.below(3) { out.push_str("[[tab T&<1>]]"); nodes(r, depth - 1, out); out.push_str("[[/tab]]"); },
                "table" => for _ in 0..1 + r.below(2) { out.push_str("[[row]]"); for _ in 0..1 + r.below(2) { out.push_str("[[cell colspan=\"2\"]]"); nodes(r, depth - 1, out); out.push_str("[[/cell]]"); } out.push_str("[[/row]]"); },
                "ruby" => { nodes(r, depth - 1, out); out.push_str("[[rt]]"); nodes(r, depth - 1, out); out.push_str("[[/rt]]"); }
                "bibliography" => { let n = r.below(3); for _ in 0..n { out.push_str(*r.pick(&["\n: x : first", "\n: y : other", "\n: x : dup", "\n: a&b : <z>"])); if r.chance(1,3) { out.push(' '); nodes(r, 0, out); } } out.push('\n'); }
                _ => nodes(r, depth - 1, out),
            }
            if nl && r.chance(3, 4) { out.push('\n'); }
            if r.chance(11, 12) { out.push_str("[[/"); out.push_str(name); out.push_str("]]"); }
            if nl { out.push('\n'); }
        }
        _ => out.push_str(&text(r)),
    }
}

pub fn nodes(r: &mut Rng, depth: usize, out: &mut String) {
    for _ in 0..1 + r.below(4) { node(r, depth, out); if r.chance(1, 5) { out.push(*r.pick(&[' ', '\n'])); } }
}

pub fn document(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(10) {
        0..=1 => { for _ in 0..1 + r.below(8) { s.push_str(*r.pick(FRAGS)); } }
        2..=3 => { for _ in 0..1 + r.below(5) { if r.chance(1,2) { s.push_str(*r.pick(FRAGS)); } else { s.push_str(*r.pick(SINGLE_BLOCKS)); } } }
        4 => { let d = *r.pick(FRAGS); for _ in 0..1 + r.below(6) { s.push_str(d); s.push_str(*r.pick(FRAGS)); } }
        _ => { for _ in 0..1 + r.below(3) { node(r, 3, &mut s); if r.chance(1,2) { s.push('\n'); } } }
    }
    if s.len() > 1500 { let mut k = 1500; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); }
    s
}
