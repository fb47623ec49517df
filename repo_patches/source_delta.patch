From f3a187e36936ab090b1e560547d1168532f478b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 01/26] fix: closing double parentheses no longer abort parsing

The rule map listed the bibcite rule for '))' although that rule asserts
that it starts at '((', so any page containing '))' outside of a bibcite
panicked.
---
 src/parsing/rule/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/mapping.rs b/src/parsing/rule/mapping.rs
index ec61180..f6c816b 100644
--- a/src/parsing/rule/mapping.rs
+++ b/src/parsing/rule/mapping.rs
@@ -44,7 +44,7 @@ pub static RULE_MAP: Lazy<EnumMap<Token, Vec<Rule>>> = Lazy::new(|| {
         Token::LeftBlockStar => vec![RULE_BLOCK_STAR],
         Token::RightBlock => vec![],
         Token::LeftParentheses => vec![RULE_BIBCITE, RULE_TEXT],
-        Token::RightParentheses => vec![RULE_BIBCITE, RULE_TEXT],
+        Token::RightParentheses => vec![RULE_TEXT],
         Token::LeftMath => vec![RULE_MATH],
         Token::RightMath => vec![],
         Token::DoubleDash => vec![RULE_STRIKETHROUGH_DASH, RULE_DASH],
-- 
2.43.0


From 4eac7a0d7cedf299181b7e08425b0e7fc4666abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 02/26] fix: links to URLs with an empty label render the URL
 instead of panicking

'[[[https://example.com|]]]' and '[[[#anchor|]]]' ask for the page title
of something which is not a page, which aborted both renderers.
---
 src/render/handle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/render/handle.rs b/src/render/handle.rs
index 747bdc2..2bcbdbb 100644
--- a/src/render/handle.rs
+++ b/src/render/handle.rs
@@ -103,7 +103,7 @@ impl Handle {
         F: FnOnce(&str),
     {
         let page_title;
-        let label_text = match *label {
+        let label_text: &str = match *label {
             LinkLabel::Text(ref text) => text,
             LinkLabel::Url(Some(ref text)) => text,
             LinkLabel::Url(None) => match link {
@@ -111,9 +111,8 @@ impl Handle {
                 LinkLocation::Page(page_ref) => page_ref.page(),
             },
             LinkLabel::Page => match link {
-                LinkLocation::Url(_) => {
-                    panic!("Requested link label of page for a URL");
-                }
+                // URLs do not have a page title, so use the URL itself.
+                LinkLocation::Url(url) => url,
                 LinkLocation::Page(page_ref) => {
                     let (site, page) = page_ref.fields_or(site);
                     page_title = match self.get_page_title(site, page) {
-- 
2.43.0


From 773f9889caa1fbbf00c3d31f28f19fab70b1abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 03/26] fix: only accept safe characters in data- and aria-
 attribute names

The pattern was unanchored (and had the range 'A-z'), so any attribute
starting with 'data-' was considered safe as long as one character was
acceptable, and rendering it tripped the attribute name assertion.
---
 src/tree/attribute/safe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/attribute/safe.rs b/src/tree/attribute/safe.rs
index 8f59b4f..091ffe5 100644
--- a/src/tree/attribute/safe.rs
+++ b/src/tree/attribute/safe.rs
@@ -182,7 +182,7 @@ pub static URL_ATTRIBUTES: Lazy<HashSet<UniCase<&'static str>>> =
     Lazy::new(|| hashset_unicase!["href", "src",]);
 
 static ATTRIBUTE_SUFFIX_SAFE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"[a-zA-z0-9\-]+").unwrap());
+    Lazy::new(|| Regex::new(r"^[a-zA-Z0-9\-]+$").unwrap());
 
 pub const SAFE_ATTRIBUTE_PREFIXES: [&str; 2] = ["aria-", "data-"];
 
-- 
2.43.0


From b2c64fb4345da63681998bf89e616ceceae16243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 04/26] fix: discard footnotes, code blocks etc. belonging to
 failed parse attempts

These lists are shared between parser instances, so what a rule had added
before failing stayed there. When the same wikitext was then parsed again
by another rule, footnotes were listed twice (so later references got the
wrong contents), and named code blocks were rejected as duplicates.
---
 src/parsing/parser.rs                     | 40 +++++++++++++++++++++++
 src/parsing/rule/impls/definition_list.rs |  2 ++
 src/parsing/rule/mod.rs                   | 14 +++++---
 src/tree/bibliography.rs                  |  4 +++
 4 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index f915c12..8a85ad8 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -86,6 +86,16 @@ pub struct Parser<'r, 't> {
     start_of_line: bool,
 }
 
+/// The lengths of the shared lists at some point during parsing.
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
+pub struct SharedItemsMark {
+    table_of_contents: usize,
+    html_blocks: usize,
+    code_blocks: usize,
+    footnotes: usize,
+    bibliographies: usize,
+}
+
 impl<'r, 't> Parser<'r, 't> {
     /// Constructor. Should only be created by `parse()`.
     ///
@@ -257,6 +267,36 @@ impl<'r, 't> Parser<'r, 't> {
         mem::take(&mut self.footnotes.borrow_mut())
     }
 
+    // Shared items
+    /// Remembers what has been added to the shared lists so far.
+    ///
+    /// See `discard_shared_items()`.
+    pub fn shared_items_mark(&self) -> SharedItemsMark {
+        SharedItemsMark {
+            table_of_contents: self.table_of_contents.borrow().len(),
+            html_blocks: self.html_blocks.borrow().len(),
+            code_blocks: self.code_blocks.borrow().len(),
+            footnotes: self.footnotes.borrow().len(),
+            bibliographies: self.bibliographies.borrow().next_index(),
+        }
+    }
+
+    /// Drops everything added to the shared lists since the mark was made.
+    ///
+    /// This is used when the elements these items belong to are not going
+    /// to be part of the syntax tree, such as when a rule fails.
+    pub fn discard_shared_items(&mut self, mark: SharedItemsMark) {
+        self.table_of_contents
+            .borrow_mut()
+            .truncate(mark.table_of_contents);
+        self.html_blocks.borrow_mut().truncate(mark.html_blocks);
+        self.code_blocks.borrow_mut().truncate(mark.code_blocks);
+        self.footnotes.borrow_mut().truncate(mark.footnotes);
+        self.bibliographies
+            .borrow_mut()
+            .truncate(mark.bibliographies);
+    }
+
     // Blocks
     pub fn push_html_block(&mut self, new_block: Cow<'t, str>) {
         self.html_blocks.borrow_mut().push(new_block);
diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 1a4f8fb..1d4c43b 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -67,6 +67,7 @@ fn parse_definition_list<'r, 't>(
     // Collect remainder, halting if there's a failure
     if !at_end {
         loop {
+            let mark = parser.shared_items_mark();
             let sub_parser = &mut parser.clone();
 
             match parse_item(sub_parser) {
@@ -84,6 +85,7 @@ fn parse_definition_list<'r, 't>(
                 }
                 Err(error) => {
                     warn!("Failed to get the next definition list item, ending iteration: {error:?}");
+                    parser.discard_shared_items(mark);
                     break;
                 }
             }
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index bf46757..543f7e2 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -67,15 +67,21 @@ impl Rule {
         }
 
         // Fork parser and try running the rule.
+        let mark = parser.shared_items_mark();
         let mut sub_parser = parser.clone_with_rule(self);
-        let result = (self.try_consume_fn)(&mut sub_parser);
-
-        if let Ok(ref output) = result {
+        let result = (self.try_consume_fn)(&mut sub_parser).and_then(|output| {
             // First, ensure there aren't any partial elements in the result.
             output.check_partials(parser)?;
+            Ok(output)
+        });
 
+        match result {
             // Now, finally save the parser state since it succeeded.
-            parser.update(&sub_parser);
+            Ok(_) => parser.update(&sub_parser),
+
+            // The elements produced are being thrown away, so the footnotes,
+            // code blocks, etc. which belong to them must be as well.
+            Err(_) => parser.discard_shared_items(mark),
         }
 
         result
diff --git a/src/tree/bibliography.rs b/src/tree/bibliography.rs
index 1284e8c..c68b7bd 100644
--- a/src/tree/bibliography.rs
+++ b/src/tree/bibliography.rs
@@ -102,6 +102,10 @@ impl<'t> BibliographyList<'t> {
         self.0.append(&mut other.0);
     }
 
+    pub fn truncate(&mut self, len: usize) {
+        self.0.truncate(len);
+    }
+
     #[inline]
     pub fn next_index(&self) -> usize {
         self.0.len()
-- 
2.43.0


From 00815cf68f11b824c7dcf7b48fe6664c478e390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 05/26] fix: excluded iftags and ifcategory bodies do not add
 footnotes to the page

A footnote, code block, heading, or footnote block within the body was
still registered with the page even though its element was excluded,
shifting the numbering of everything after it.
---
 src/parsing/parser.rs                             | 3 +++
 src/parsing/rule/impls/block/blocks/ifcategory.rs | 3 +++
 src/parsing/rule/impls/block/blocks/iftags.rs     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 8a85ad8..3ca3154 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -94,6 +94,7 @@ pub struct SharedItemsMark {
     code_blocks: usize,
     footnotes: usize,
     bibliographies: usize,
+    has_footnote_block: bool,
 }
 
 impl<'r, 't> Parser<'r, 't> {
@@ -278,6 +279,7 @@ impl<'r, 't> Parser<'r, 't> {
             code_blocks: self.code_blocks.borrow().len(),
             footnotes: self.footnotes.borrow().len(),
             bibliographies: self.bibliographies.borrow().next_index(),
+            has_footnote_block: self.has_footnote_block,
         }
     }
 
@@ -295,6 +297,7 @@ impl<'r, 't> Parser<'r, 't> {
         self.bibliographies
             .borrow_mut()
             .truncate(mark.bibliographies);
+        self.has_footnote_block = mark.has_footnote_block;
     }
 
     // Blocks
diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 951064e..53cd298 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -67,6 +67,7 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    let mark = parser.shared_items_mark();
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFCATEGORY, false)?.into();
 
@@ -84,6 +85,8 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Footnotes and such in the excluded body aren't part of the page either.
+        parser.discard_shared_items(mark);
         Elements::None
     };
 
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 5be9522..52313b5 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -51,6 +51,7 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    let mark = parser.shared_items_mark();
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFTAGS, false)?.into();
 
@@ -68,6 +69,8 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Footnotes and such in the excluded body aren't part of the page either.
+        parser.discard_shared_items(mark);
         Elements::None
     };
 
-- 
2.43.0


From b4f7b3460fc0d8e21c7acb225c8ab3f31f09ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 06/26] fix: do not let partial elements escape into other
 elements

List items, table rows and cells, tabs, and ruby text are only meaningful
directly within their parent, but were accepted at any depth within it
(e.g. '[[ruby]]**[[rt]]x[[/rt]]**[[/ruby]]'), and then aborted rendering
or paragraph gathering. Table header cells also accepted cells inside.
---
 src/parsing/parser.rs                             | 14 +++++++++++++-
 src/parsing/rule/impls/block/blocks/ifcategory.rs |  6 +++++-
 src/parsing/rule/impls/block/blocks/iftags.rs     |  6 +++++-
 src/parsing/rule/impls/block/blocks/table.rs      |  2 --
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 3ca3154..a8cc525 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -81,6 +81,7 @@ pub struct Parser<'r, 't> {
 
     // Flags
     accepts_partial: AcceptsPartial,
+    outer_partial: AcceptsPartial, // What accepted the elements made by this rule.
     in_footnote: bool, // Whether we're currently inside [[footnote]] ... [[/footnote]].
     has_footnote_block: bool, // Whether a [[footnoteblock]] was created.
     start_of_line: bool,
@@ -127,6 +128,7 @@ impl<'r, 't> Parser<'r, 't> {
             footnotes: make_shared_vec(),
             bibliographies: Rc::new(RefCell::new(BibliographyList::new())),
             accepts_partial: AcceptsPartial::None,
+            outer_partial: AcceptsPartial::None,
             in_footnote: false,
             has_footnote_block: false,
             start_of_line: true,
@@ -159,6 +161,12 @@ impl<'r, 't> Parser<'r, 't> {
         self.accepts_partial
     }
 
+    /// The kind of partial accepted by whatever the current rule is within.
+    #[inline]
+    pub fn outer_partial(&self) -> AcceptsPartial {
+        self.outer_partial
+    }
+
     #[inline]
     pub fn in_footnote(&self) -> bool {
         self.in_footnote
@@ -183,6 +191,11 @@ impl<'r, 't> Parser<'r, 't> {
     pub fn clone_with_rule(&self, rule: Rule) -> Self {
         let mut clone = self.clone();
         clone.set_rule(rule);
+
+        // Partials are only accepted directly within their parent,
+        // so what is nested inside of this rule starts out with none.
+        clone.outer_partial = self.accepts_partial;
+        clone.accepts_partial = AcceptsPartial::None;
         clone
     }
 
@@ -459,7 +472,6 @@ impl<'r, 't> Parser<'r, 't> {
     #[inline]
     pub fn update(&mut self, parser: &Parser<'r, 't>) {
         // Flags
-        self.accepts_partial = parser.accepts_partial;
         self.in_footnote = parser.in_footnote;
         self.has_footnote_block = parser.has_footnote_block;
         self.start_of_line = parser.start_of_line;
diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 53cd298..691d7d5 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::{ElementCondition, ElementConditionType};
+use crate::parsing::{ElementCondition, ElementConditionType, ParserWrap};
 
 pub const BLOCK_IFCATEGORY: BlockRule = BlockRule {
     name: "block-ifcategory",
@@ -66,6 +66,10 @@ fn parse_fn<'r, 't>(
             }
         })?;
 
+    // The body's elements are passed along as-is, so it may have the same partials
+    let accepts_partial = parser.outer_partial();
+    let parser = &mut ParserWrap::new(parser, accepts_partial);
+
     // Get body content, never with paragraphs
     let mark = parser.shared_items_mark();
     let (elements, errors, paragraph_safe) =
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 52313b5..7b186c2 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::ElementCondition;
+use crate::parsing::{ElementCondition, ParserWrap};
 
 pub const BLOCK_IFTAGS: BlockRule = BlockRule {
     name: "block-iftags",
@@ -50,6 +50,10 @@ fn parse_fn<'r, 't>(
             None => Err(parser.make_err(ParseErrorKind::BlockMissingArguments)),
         })?;
 
+    // The body's elements are passed along as-is, so it may have the same partials
+    let accepts_partial = parser.outer_partial();
+    let parser = &mut ParserWrap::new(parser, accepts_partial);
+
     // Get body content, never with paragraphs
     let mark = parser.shared_items_mark();
     let (elements, errors, paragraph_safe) =
diff --git a/src/parsing/rule/impls/block/blocks/table.rs b/src/parsing/rule/impls/block/blocks/table.rs
index b1b547e..0b36dc9 100644
--- a/src/parsing/rule/impls/block/blocks/table.rs
+++ b/src/parsing/rule/impls/block/blocks/table.rs
@@ -232,8 +232,6 @@ fn parse_cell_header<'r, 't>(
     flag_score: bool,
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
-    let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableCell);
-
     // Get block contents.
     let ParsedBlock {
         elements,
-- 
2.43.0


From 2191748b0a2f61bd185746816ac12888a4909698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 07/26] fix: do not permit footnote blocks inside of footnotes

Rendering such a footnote renders the block, which renders the footnote,
and so on until the stack overflows.
---
 src/parsing/rule/impls/block/blocks/footnote.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsing/rule/impls/block/blocks/footnote.rs b/src/parsing/rule/impls/block/blocks/footnote.rs
index 8b592e2..86be91c 100644
--- a/src/parsing/rule/impls/block/blocks/footnote.rs
+++ b/src/parsing/rule/impls/block/blocks/footnote.rs
@@ -102,6 +102,12 @@ fn parse_footnote_block<'r, 't>(
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Parsing footnote list block (in-head {in_head})");
+
+    // A footnote block within a footnote would contain itself.
+    if parser.in_footnote() {
+        return Err(parser.make_err(ParseErrorKind::FootnotesNested));
+    }
+
     assert!(!flag_star, "Footnote block doesn't allow star flag");
     assert!(!flag_score, "Footnote block doesn't allow score flag");
     assert_block_name(&BLOCK_FOOTNOTE_BLOCK, name);
-- 
2.43.0


From 00b34da4825fb4bf82f21a3643c0d2717dfd4139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 08/26] fix: bibliography entries which cite themselves or have
 footnotes no longer break rendering

---
 src/render/html/context.rs              | 18 ++++++++++++++++++
 src/render/html/element/bibliography.rs |  8 ++++++++
 src/render/html/element/footnotes.rs    |  6 ++++++
 3 files changed, 32 insertions(+)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 651af3b..83805fa 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -37,6 +37,7 @@ use crate::url::is_url;
 use std::borrow::Cow;
 use std::collections::HashMap;
 use std::fmt::{self, Write};
+use std::mem;
 use std::num::NonZeroUsize;
 
 #[derive(Debug)]
@@ -76,6 +77,7 @@ where
     table_of_contents_index: usize,
     equation_index: NonZeroUsize,
     footnote_index: NonZeroUsize,
+    in_bibliography_tooltip: bool, // Whether we're within the tooltip of a citation.
 }
 
 impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
@@ -125,6 +127,7 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             table_of_contents_index: 0,
             equation_index: NonZeroUsize::new(1).unwrap(),
             footnote_index: NonZeroUsize::new(1).unwrap(),
+            in_bibliography_tooltip: false,
         }
     }
 
@@ -245,6 +248,21 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
         index
     }
 
+    /// Whether we are rendering the tooltip of a bibliography citation.
+    ///
+    /// This is a copy of an entry which is also rendered elsewhere, so
+    /// it should not have footnotes (or citation tooltips) of its own.
+    #[inline]
+    pub fn in_bibliography_tooltip(&self) -> bool {
+        self.in_bibliography_tooltip
+    }
+
+    /// Sets the tooltip flag, returning its previous value.
+    #[inline]
+    pub fn set_in_bibliography_tooltip(&mut self, value: bool) -> bool {
+        mem::replace(&mut self.in_bibliography_tooltip, value)
+    }
+
     #[inline]
     pub fn get_footnote(&self, index_one: NonZeroUsize) -> Option<&'e [Element<'t>]> {
         self.footnotes
diff --git a/src/render/html/element/bibliography.rs b/src/render/html/element/bibliography.rs
index 61cfe87..9d10ef4 100644
--- a/src/render/html/element/bibliography.rs
+++ b/src/render/html/element/bibliography.rs
@@ -59,6 +59,12 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                         ctx.push_raw(']');
                     }
 
+                    // References within a tooltip don't get a tooltip of their own.
+                    // This matters since entries may cite each other, or themselves.
+                    if ctx.in_bibliography_tooltip() {
+                        return;
+                    }
+
                     // Tooltip shown on hover.
                     // Is aria-hidden due to difficulty in getting a simultaneous
                     // tooltip and link to work. A screen reader can still navigate
@@ -79,10 +85,12 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                                 .contents(&label);
 
                             // Actual tooltip contents
+                            let previous = ctx.set_in_bibliography_tooltip(true);
                             ctx.html()
                                 .span()
                                 .attr(attr!("class" => "wj-bibliography-ref-contents"))
                                 .contents(contents);
+                            ctx.set_in_bibliography_tooltip(previous);
                         });
                 });
         }
diff --git a/src/render/html/element/footnotes.rs b/src/render/html/element/footnotes.rs
index dba35fa..264dfb8 100644
--- a/src/render/html/element/footnotes.rs
+++ b/src/render/html/element/footnotes.rs
@@ -23,6 +23,12 @@ use super::prelude::*;
 pub fn render_footnote(ctx: &mut HtmlContext) {
     debug!("Rendering footnote reference");
 
+    // The tooltip is only a copy of a bibliography entry, this footnote
+    // gets its number where that entry is rendered for real.
+    if ctx.in_bibliography_tooltip() {
+        return;
+    }
+
     let index = ctx.next_footnote_index();
     let id = str!(index);
 
-- 
2.43.0


From f4dfcc7b99a4c80c1d3d9d5ae1539751b534afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 09/26] fix: do not let CSS end its own <style> element

---
 src/render/html/element/style.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/render/html/element/style.rs b/src/render/html/element/style.rs
index b8fb58e..73ecdfc 100644
--- a/src/render/html/element/style.rs
+++ b/src/render/html/element/style.rs
@@ -50,9 +50,10 @@ pub fn render_style(ctx: &mut HtmlContext, input_css: &str) {
     };
 
     ctx.html().style().inner(|ctx| {
-        // SAFETY: The resultant CSS cannot contain HTML-escaping elements,
-        //         as those are invalid and would not be retained during
-        //         the parcel_css parsing process.
+        // SAFETY: Strings and other CSS constructs may contain any text, but
+        //         without an end tag we cannot leave the <style> element.
+        //         The backslash means the same character as far as CSS is concerned.
+        let output_css = output_css.replace("</", "<\\/");
         ctx.push_raw_str(&output_css);
     });
 }
-- 
2.43.0


From 2f474a3d56649d045862323cb9a0c229fcd7b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 10/26] fix: do not replace includes found within another
 include

---
 src/includes/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/includes/mod.rs b/src/includes/mod.rs
index 4656265..5c63398 100644
--- a/src/includes/mod.rs
+++ b/src/includes/mod.rs
@@ -80,11 +80,18 @@ where
 
     let mut ranges = Vec::new();
     let mut includes = Vec::new();
+    let mut last_end = 0;
 
     // Get include references
     for mtch in INCLUDE_REGEX.find_iter(input) {
         let start = mtch.start();
 
+        // This is part of the previous include (e.g. in an argument),
+        // and that gets replaced as a whole.
+        if start < last_end {
+            continue;
+        }
+
         trace!(
             "Found include regex match (start {}, slice '{}')",
             start,
@@ -94,6 +101,7 @@ where
         match parse_include_block(input, start, settings) {
             Ok((include, end)) => {
                 ranges.push(start..end);
+                last_end = end;
                 includes.push(include);
             }
             Err(_) => warn!("Unable to parse include regex match"),
-- 
2.43.0


From 2b41a0ba2ec50c99580e9694d924363f0e6c0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 11/26] fix: only treat ((bibcite ...)) as a citation

---
 src/parsing/rule/impls/bibcite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/bibcite.rs b/src/parsing/rule/impls/bibcite.rs
index a6047d2..fa7c9fa 100644
--- a/src/parsing/rule/impls/bibcite.rs
+++ b/src/parsing/rule/impls/bibcite.rs
@@ -35,7 +35,7 @@ fn try_consume_fn<'r, 't>(
     // This is like a poor man's block, it's "((bibcite <label>))"
     let current = parser.current();
     if current.token != Token::Identifier
-        && !current.slice.eq_ignore_ascii_case("bibcite")
+        || !current.slice.eq_ignore_ascii_case("bibcite")
     {
         warn!("'((' not followed by 'bibcite', failing rule");
         return Err(parser.make_err(ParseErrorKind::RuleFailed));
-- 
2.43.0


From 1eddfc91e259314f1b69b9bd4d89601017719a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 12/26] fix: keep text following a heading that looks like
 another heading

---
 src/parsing/rule/impls/header.rs | 54 ++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6ee06e1..4b3aef3 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -32,6 +32,42 @@ fn try_consume_fn<'r, 't>(
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create header container");
 
+    let (elements, mut all_errors, _) = parse_heading(parser)?.into();
+    let mut all_elements: Vec<_> = elements.into_iter().collect();
+
+    // Collect headings until we hit an error.
+    //
+    // We do this because the container consumes the newline,
+    // which we need to trigger the next header when using regular rules.
+    //
+    // If there isn't another heading then the parser must be left alone,
+    // so that whatever is there instead does not go missing.
+    loop {
+        let mark = parser.shared_items_mark();
+        let sub_parser = &mut parser.clone();
+
+        match parse_heading(sub_parser) {
+            Ok(success) => {
+                let (elements, mut errors, _) = success.into();
+
+                all_elements.extend(elements);
+                all_errors.append(&mut errors);
+                parser.update(sub_parser);
+            }
+            Err(_) => {
+                parser.discard_shared_items(mark);
+                break;
+            }
+        }
+    }
+
+    // Build final Elements object
+    ok!(false; all_elements, all_errors)
+}
+
+fn parse_heading<'r, 't>(
+    parser: &mut Parser<'r, 't>,
+) -> ParseResult<'r, 't, Elements<'t>> {
     macro_rules! step {
         ($token:expr) => {{
             let current = parser.current();
@@ -53,7 +89,7 @@ fn try_consume_fn<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
-    let (elements, mut all_errors, _) = collect_container(
+    let (elements, errors, _) = collect_container(
         parser,
         RULE_HEADER,
         ContainerType::Header(heading),
@@ -80,19 +116,5 @@ fn try_consume_fn<'r, 't>(
         parser.push_table_of_contents_entry(heading.level, elements);
     }
 
-    // Recursively collect headings until we hit an error.
-    //
-    // We do this because the container consumes the newline,
-    // which we need to trigger the next header when using regular rules.
-    let mut all_elements: Vec<_> = elements.into_iter().collect();
-
-    if let Ok(success) = (try_consume_fn)(parser) {
-        let (elements, mut errors, _) = success.into();
-
-        all_elements.extend(elements);
-        all_errors.append(&mut errors);
-    }
-
-    // Build final Elements object
-    ok!(false; all_elements, all_errors)
+    ok!(false; elements, errors)
 }
-- 
2.43.0


From 71b462025082789f0c9116b1c45261ea22d671b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 13/26] fix: use the right HTML value for links opening in the
 same frame

---
 src/tree/anchor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/anchor.rs b/src/tree/anchor.rs
index 9ed708a..b99ea0b 100644
--- a/src/tree/anchor.rs
+++ b/src/tree/anchor.rs
@@ -56,7 +56,7 @@ impl AnchorTarget {
             AnchorTarget::NewTab => "_blank",
             AnchorTarget::Parent => "_parent",
             AnchorTarget::Top => "_top",
-            AnchorTarget::Same => "_same",
+            AnchorTarget::Same => "_self",
         }
     }
 }
-- 
2.43.0


From dc2896832d3f40ba480587dc6de818e4d352ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 14/26] fix: dates and equation references honor invisibility
 in text rendering

---
 src/render/text/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/render/text/context.rs b/src/render/text/context.rs
index c59039a..269babf 100644
--- a/src/render/text/context.rs
+++ b/src/render/text/context.rs
@@ -266,6 +266,8 @@ where
 {
     #[inline]
     fn write_str(&mut self, s: &str) -> fmt::Result {
-        self.buffer().write_str(s)
+        // Not directly to the buffer, this may be within something invisible.
+        self.push_str(s);
+        Ok(())
     }
 }
-- 
2.43.0


From 43bb0f0d7e317cbd362d9e4aaf134c0d986ac0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 15/26] fix: UTF-16 index maps of empty strings know about
 index zero

---
 src/utf16.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/utf16.rs b/src/utf16.rs
index 31316bf..55ca2ad 100644
--- a/src/utf16.rs
+++ b/src/utf16.rs
@@ -47,19 +47,16 @@ impl<'t> Utf16IndexMap<'t> {
     pub fn new(text: &'t str) -> Self {
         let mut map = HashMap::new();
         let mut utf16_index = 0;
-        let mut last_utf8_index = None;
 
         // Add index for the start of each character
         for (utf8_index, ch) in text.char_indices() {
             map.insert(utf8_index, utf16_index);
             utf16_index += ch.len_utf16();
-            last_utf8_index = Some(utf8_index + ch.len_utf8());
         }
 
         // Add last index, needed for the final token span.
-        if let Some(utf8_index) = last_utf8_index {
-            map.insert(utf8_index, utf16_index);
-        }
+        // For empty strings, this is the only index.
+        map.insert(text.len(), utf16_index);
 
         Utf16IndexMap {
             map,
-- 
2.43.0


From da6f409de6da97c98511138e8865a541c6644a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 16/26] fix: keep bullets which turn out not to start a list
 item

---
 src/parsing/rule/impls/list.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parsing/rule/impls/list.rs b/src/parsing/rule/impls/list.rs
index 59eab30..d1f57f2 100644
--- a/src/parsing/rule/impls/list.rs
+++ b/src/parsing/rule/impls/list.rs
@@ -90,17 +90,19 @@ fn try_consume_fn<'r, 't>(
                 break;
             }
         };
-        parser.step()?;
 
         trace!("Parsing list item '{}'", list_type.name());
 
         // For now, always expect whitespace after the bullet
-        let current = parser.current();
-        if current.token != Token::Whitespace {
+        //
+        // If there isn't any then this isn't a list item, and the bullet
+        // must be left where it is so it doesn't go missing.
+        let next = parser.look_ahead(0).map(|next| next.token);
+        if next != Some(Token::Whitespace) {
             warn!("Didn't find whitespace after bullet token, ending list iteration");
             break;
         }
-        parser.step()?;
+        parser.step_n(2)?;
 
         // Parse elements until we hit the end of the line
         let elements = collect_consume(
-- 
2.43.0


From 0900ea4f8077e6e369144a1ce2594b59820b2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 17/26] fix: do not report anchors within the page as links to
 other pages

---
 src/render/html/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 83805fa..33125ab 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -283,7 +283,8 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             LinkLocation::Url(link) => {
                 let mut link: &str = link;
 
-                if link == "javascript:;" {
+                // Inert links and links within this page don't lead anywhere else.
+                if link == "javascript:;" || link.starts_with('#') {
                     return;
                 }
 
-- 
2.43.0


From 7a2db568e508ab1a71974f6d54bdffa4a6dff2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 18/26] fix: keep the text of incomplete rows after a table

---
 src/parsing/rule/impls/table.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parsing/rule/impls/table.rs b/src/parsing/rule/impls/table.rs
index 93eb57c..c3ec8e9 100644
--- a/src/parsing/rule/impls/table.rs
+++ b/src/parsing/rule/impls/table.rs
@@ -49,6 +49,12 @@ fn try_consume_fn<'r, 't>(
 
         let mut cells = Vec::new();
 
+        // If this turns out not to be a row, the table ends before it,
+        // and its contents must not go missing.
+        let row_start = parser.clone();
+        let row_mark = parser.shared_items_mark();
+        let row_errors = errors.len();
+
         macro_rules! build_row {
             () => {
                 rows.push(TableRow {
@@ -65,6 +71,9 @@ fn try_consume_fn<'r, 't>(
                     return Err(parser.make_err(ParseErrorKind::RuleFailed));
                 } else {
                     // At least one row was created, end it here.
+                    parser.update(&row_start);
+                    parser.discard_shared_items(row_mark);
+                    errors.truncate(row_errors);
                     break 'table;
                 }
             };
-- 
2.43.0


From 982afa82351c8574de76ecfb02869d62dbb2b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 19/26] fix: block names with two scores are not blocks

---
 src/parsing/rule/impls/block/rule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsing/rule/impls/block/rule.rs b/src/parsing/rule/impls/block/rule.rs
index 8f8ed3c..1996dce 100644
--- a/src/parsing/rule/impls/block/rule.rs
+++ b/src/parsing/rule/impls/block/rule.rs
@@ -106,7 +106,11 @@ where
     let (name, in_head) = parser.get_block_name(flag_star)?;
     trace!("Got block name '{name}' (in head {in_head})");
 
+    // Only one score is allowed, otherwise this isn't the name of a block
     let (name, flag_score) = match name.strip_suffix('_') {
+        Some(name) if name.ends_with('_') => {
+            return Err(parser.make_err(ParseErrorKind::NoSuchBlock));
+        }
         Some(name) => (name, true),
         None => (name, false),
     };
-- 
2.43.0


From 793dc720f28f595552b7a8596fc595a1a9510f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 20/26] fix: append nothing to the inert link target

A page link such as [[[javascript:;//%0aalert(1)]]] put the rest of its path
after "javascript:;", which makes it a script URL again.
---
 src/render/html/element/link.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/render/html/element/link.rs b/src/render/html/element/link.rs
index febaf9b..0a6662d 100644
--- a/src/render/html/element/link.rs
+++ b/src/render/html/element/link.rs
@@ -63,6 +63,12 @@ pub fn render_link(
 
     let url = normalize_link(link, ctx.handle());
 
+    // Nothing may follow the inert target, it would be run as a script
+    let extra = match url.as_ref() {
+        "javascript:;" => "",
+        _ => extra.unwrap_or(""),
+    };
+
     let target_value = match target {
         Some(target) => target.html_attr(),
         None => "",
@@ -91,7 +97,7 @@ pub fn render_link(
     let site = ctx.info().site.as_ref().to_string();
     let mut tag = ctx.html().a();
     tag.attr(attr!(
-        "href" => &url extra.unwrap_or(""),
+        "href" => &url extra,
         "target" => target_value; if target.is_some(),
         "class" => "wj-link " css_class interwiki_class,
         "data-link-type" => ltype.name(),
-- 
2.43.0


From 58755f9660ead172458de07576eb6097adde98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 21/26] fix: do not append the path to interwiki links twice

The whole path has already been substituted for an interwiki link, so
[[[!wp:Apple/History]]] led to .../Apple/History/History.
---
 src/tree/link.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tree/link.rs b/src/tree/link.rs
index 1df2b4d..e7e7ef2 100644
--- a/src/tree/link.rs
+++ b/src/tree/link.rs
@@ -96,6 +96,11 @@ impl<'a> LinkLocation<'a> {
             return None;
         }
 
+        // Interwiki links already substitute the entire path
+        if link_str.starts_with('!') {
+            return None;
+        }
+
         // Remove first path segment and reconstruct the remaining parts
         let mut split_anchor: Vec<&str> = link_str.splitn(2, "#").collect();
         let mut split_path: Vec<&str> = split_anchor[0].splitn(2, "/").collect();
-- 
2.43.0


From 136bb4b04981e6d71eb4c381ef50ebcadfcd3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 22/26] fix: list a heading before the headings within it

---
 src/parsing/parser.rs            | 14 +++++++++++---
 src/parsing/rule/impls/header.rs |  5 ++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index a8cc525..cd28f4e 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -240,9 +240,15 @@ impl<'r, 't> Parser<'r, 't> {
         }
     }
 
-    /// Add heading element to table of contents.
-    pub fn push_table_of_contents_entry(
+    /// The number of table of contents entries so far.
+    pub fn table_of_contents_len(&self) -> usize {
+        self.table_of_contents.borrow().len()
+    }
+
+    /// Add heading element to table of contents, at the given position.
+    pub fn insert_table_of_contents_entry(
         &mut self,
+        index: usize,
         heading: HeadingLevel,
         name_elements: &[Element],
     ) {
@@ -253,7 +259,9 @@ impl<'r, 't> Parser<'r, 't> {
         let name =
             TextRender.render_partial(name_elements, self.page_info, self.settings, 0);
 
-        self.table_of_contents.borrow_mut().push((level, name));
+        self.table_of_contents
+            .borrow_mut()
+            .insert(index, (level, name));
     }
 
     #[cold]
diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 4b3aef3..7cf7d9e 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -89,6 +89,9 @@ fn parse_heading<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
+    // Any headings within this one are listed after it
+    let toc_index = parser.table_of_contents_len();
+
     let (elements, errors, _) = collect_container(
         parser,
         RULE_HEADER,
@@ -113,7 +116,7 @@ fn parse_heading<'r, 't>(
         };
 
         // Create table of contents entry with the given level and name.
-        parser.push_table_of_contents_entry(heading.level, elements);
+        parser.insert_table_of_contents_entry(toc_index, heading.level, elements);
     }
 
     ok!(false; elements, errors)
-- 
2.43.0


From 3507be314a4cc6a4d13a82f3cf456788f7b5b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 23/26] fix: refuse a page reference with a blank site name

---
 src/data/page_ref.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/page_ref.rs b/src/data/page_ref.rs
index e4156cb..ce89b86 100644
--- a/src/data/page_ref.rs
+++ b/src/data/page_ref.rs
@@ -108,6 +108,11 @@ impl<'t> PageRef<'t> {
                 let site = s[1..idx].trim();
                 let page = s[idx + 1..].trim();
 
+                // Blank site name, e.g. ": :something"
+                if site.is_empty() {
+                    return Err(PageRefParseError);
+                }
+
                 PageRef::page_and_site(site, page)
             }
 
-- 
2.43.0


From a713dbc56ced351257e91a0b26dc8e55dba60abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 24/26] fix: compress groups of newlines left after joining
 lines when preprocessing

---
 src/preproc/whitespace.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/preproc/whitespace.rs b/src/preproc/whitespace.rs
index b1058a7..700c64b 100644
--- a/src/preproc/whitespace.rs
+++ b/src/preproc/whitespace.rs
@@ -68,6 +68,10 @@ static NULL_SPACE: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace {
     regex: Regex::new("\0").unwrap(),
     replacement: " ",
 });
+static COMPRESS_NEWLINES: Lazy<Replacer> = Lazy::new(|| Replacer::RegexReplace {
+    regex: Regex::new(r"\n{3,}").unwrap(),
+    replacement: "\n\n",
+});
 
 /// Performs all whitespace substitutions in-place in the given text.
 pub fn substitute(text: &mut String) {
@@ -99,6 +103,9 @@ pub fn substitute(text: &mut String) {
     // Null characters to spaces
     replace!(NULL_SPACE);
 
+    // Compress groups of newlines left over after joining lines
+    replace!(COMPRESS_NEWLINES);
+
     // Remove leading and trailing newlines
     replace!(LEADING_NEWLINES);
     replace!(TRAILING_NEWLINES);
-- 
2.43.0


From 5fee038d55299d88a3c66649ab819769874af730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:23 +0000
Subject: [PATCH 25/26] fix: keep the first token of a definition list value
 which has no space before it

---
 src/parsing/rule/impls/definition_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 1d4c43b..dbe10b6 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -138,7 +138,8 @@ fn parse_item<'r, 't>(
     let end_token = parser.current();
 
     strip_whitespace(&mut key_elements);
-    parser.step_n(2)?;
+    parser.step()?;
+    parser.get_optional_space()?;
 
     // Gather key wikitext
     let key_string = parser
-- 
2.43.0


From 6bfbebadbedc3c4ee02b3dbfeda5f0e34d351f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 26/26] fix: report parse errors which occurred within a
 definition list

---
 src/parsing/rule/impls/definition_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index dbe10b6..f2a9be5 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -93,7 +93,7 @@ fn parse_definition_list<'r, 't>(
     }
 
     // Build and return element
-    ok!(Element::DefinitionList(items))
+    ok!(Element::DefinitionList(items), errors)
 }
 
 fn parse_item<'r, 't>(
-- 
2.43.0

