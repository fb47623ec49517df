#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python only to be readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {'files': files, 'mechanism': mech}
    if state: a['state'] = state
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
I, C, H, G = 'inputs', 'configurations', 'histories', 'programs'
ALLDOC = 'all source texts, all five wikitext modes, both layouts, all page data'

p('C01', 'Any text can be processed without crashing',
  'For every Unicode text, preprocessing, including, tokenizing, parsing and rendering it to HTML, plain text and debug output finish without a panic, abort or stack overflow, whatever the mode, layout and page data. Malformed markup is reported as parse warnings and shown as text; it never stops processing.',
  [I, C], ALLDOC,
  'The suite runs a fixed set of documents and a few seconds of random trees; a panic needs one particular arrangement of tokens, an empty label, a self-reference or a nesting the fixtures lack.',
  ['src/parsing', 'src/render', 'src/preproc', 'src/tokenizer.rs', 'src/non_empty_vec.rs'], 'index, slice, unwrap and arithmetic obligations of the functions on the path; parse failures turn into fallback text')
p('C02', 'HTML output is well-formed and shows document text literally',
  'The HTML produced for any document is a balanced element tree whose elements, attributes and text correspond one for one to the parsed document, in order. Every piece of user text in it, in content or in an attribute value, reads back as exactly the characters that were written (NUL as a space); none of it can open a tag, end an attribute, start a comment or end a style element.',
  [I, C], ALLDOC,
  'Fixtures compare a few rendered snippets; that no character in no position is ever emitted raw, and that every opened tag is closed on every path, is a statement about all documents.',
  ['src/render/html/escape.rs', 'src/render/html/builder.rs', 'src/render/html/context.rs', 'src/render/html/element'], 'escape() maps each character; every tag is written by a builder that escapes values and closes on drop')
p('C03', 'Links and embedded resources never carry scripts',
  'No link target, image source, frame source or URL-valued attribute in the rendered HTML has a javascript: or data: scheme, in any letter case or with whitespace or control characters mixed in, except the inert "javascript:;" and the built-in placeholder picture of an unknown user. Targets with such or malformed schemes are replaced by "#invalid-url"; URLs with the known schemes and "#" fragments are passed through unchanged; everything else becomes a path on the site.',
  [I, C], 'all link, image, frame and attribute syntaxes with all target strings',
  'Existing tests check a dozen strings on the scheme detector alone and no rendered output; a bypass is a spelling or a syntax nobody listed.',
  ['src/url.rs', 'src/render/html/element/link.rs', 'src/render/html/element/image.rs', 'src/tree/attribute/mod.rs'], 'normalisation applied to every URL before it is written')
p('C04', 'Only allowed attributes reach the HTML',
  'An attribute given by the author appears on the element only if its name is on the documented allow-list or is "aria-" or "data-" (in lower case) followed only by letters, digits and hyphens; all others are dropped, whatever the letter case. Boolean attributes given a true value become bare names and given a false value disappear; every other allowed attribute keeps its value, apart from the URL and id treatment.',
  [I, C], 'all attribute names and values on every block that accepts attributes',
  'Attribute fixtures use common names; the claim is about every name, including prefixes with odd suffixes and event handlers in any case.',
  ['src/tree/attribute/mod.rs', 'src/tree/attribute/safe.rs', 'src/render/html/attributes.rs'], 'filtering when the attribute map is built from arguments')
p('C05', 'Author-given ids are kept apart from generated ids',
  'When id isolation is on, every id taken from the source (id attributes, anchors, named targets) appears with each of its space-separated words prefixed by "u-" exactly once, so that it cannot equal an id the renderer generates. When isolation is off, such ids appear unchanged.',
  [I, C], 'all id strings, all syntaxes that define an id, both isolation settings',
  'Tests check a few strings on the helper; a syntax that forgets to isolate, or a string with unusual spacing, needs all inputs.',
  ['src/id_prefix.rs', 'src/tree/attribute/mod.rs', 'src/parsing/rule/impls/block/blocks/anchor.rs', 'src/parsing/rule/impls/anchor.rs'], 'isolation applied where ids enter the tree')
p('C06', 'Footnotes are numbered in order and all listed once',
  'The markers of the footnotes that a document shows are numbered 1, 2, 3, ... in reading order, and each footnote list has exactly one entry per footnote in the same order with the same contents. The list appears at each place the author asked for one and otherwise once at the end of a document that has footnotes, never when it is hidden; a footnote cannot contain another footnote or list.',
  [I, C], ALLDOC,
  'Fixtures have one to three footnotes at top level; numbering must survive failed parses, conditions, nesting, several lists and hidden lists.',
  ['src/parsing/rule/impls/block/blocks/footnote.rs', 'src/render/html/context.rs', 'src/render/html/element/footnotes.rs', 'src/parsing/mod.rs'], 'parser collects contents, renderer counts markers')
p('C07', 'The table of contents matches the headings',
  'The table of contents of a document lists exactly the headings marked for it, in document order, nested by heading level, with the heading\'s text as label. The n-th entry links to the id carried by the n-th such heading, and starred headings have neither an id nor an entry.',
  [I, C], ALLDOC,
  'Fixtures cover a handful of orderings of levels; skipping levels, headings inside other elements or inside abandoned parses need all inputs.',
  ['src/parsing/rule/impls/header.rs', 'src/parsing/parser.rs', 'src/parsing/depth.rs', 'src/render/html/element/toc.rs'], 'parser records headings and turns depths into nested lists; renderer numbers ids')
p('C08', 'Bibliography citations point at the right entry',
  'The entries of each bibliography are numbered 1, 2, 3, ... in the order written, the first entry of a label winning over later ones with the same label. A citation, before or after it, shows the number and contents of the entry with its label in the first bibliography of the document that has one, and an error when there is none. Each bibliography that is not hidden lists exactly its own entries in order with those numbers.',
  [I, C], 'all documents with any number of bibliographies, duplicate labels and citations before or after',
  'Fixtures have one small bibliography; numbering across several, duplicates and self-citation need all histories.',
  ['src/tree/bibliography.rs', 'src/parsing/rule/impls/bibcite.rs', 'src/render/html/element/bibliography.rs', 'src/render/html/context.rs'], 'ordered label list and running totals over bibliographies')
p('C09', 'Abandoned parse attempts leave no trace',
  'The footnotes, table of contents, code blocks, HTML blocks and bibliographies reported with a parsed document are exactly those occurring in its element tree, in document order; nothing remains from markup that in the end was shown as text. No half-finished element (a stray list item, table row, tab or ruby text) ever appears in the tree.',
  [I, C], ALLDOC,
  'A leak needs a construct that succeeds inside an outer construct that later fails; the fixtures contain none.',
  ['src/parsing/parser.rs', 'src/parsing/consume.rs', 'src/parsing/mod.rs', 'src/tree/partial.rs'], 'state shared between parser clones is restored when an attempt fails')
p('C10', 'Tokens tile the source exactly',
  'For every text the token sequence covers it completely: token slices, concatenated in order, give back the text, their spans are contiguous and lie on character boundaries, and one zero-width start and end marker enclose them. No text makes tokenizing fail.',
  [I], 'all Unicode texts',
  'Token tests list particular strings; coverage of every string, with any mixture of partial delimiters, is a universal statement.',
  ['src/tokenizer.rs', 'src/parsing/token/mod.rs', 'src/parsing/lexer.pest'], 'pest grammar whose alternatives end in a catch-all, converted pair by pair')
p('C11', 'Plain text comes through unchanged',
  'Text that contains no markup is rendered as exactly that text: every word, in order, once, with line ends as line breaks and blank lines as paragraph breaks. Markup that does not complete is likewise shown character for character, so no non-blank source character outside recognised markup is lost, repeated or moved.',
  [I, C], ALLDOC,
  'Fixtures show some failing constructs; that no failing construct anywhere swallows or repeats text is a statement about all inputs.',
  ['src/parsing/consume.rs', 'src/parsing/rule/impls/fallback.rs', 'src/parsing/rule/impls/text.rs', 'src/parsing/paragraph/mod.rs'], 'rules either consume their tokens into an element or give them back to be shown as text')
p('C12', 'Preprocessing reaches its documented normal form',
  'Preprocessing applies the documented rewrites, each once from left to right and in the documented order: carriage returns (with a line feed or alone) become line ends, non-breaking spaces at the start of a line become spaces, stretches of blank lines become one empty line, a backslash before a line end joins the lines, a tab becomes four spaces, a NUL a space, no run of more than two line ends stays and none around the text, then quotes (``..\'\', ,,..\'\' and `..\', within a line) and ellipses (exactly three dots, or three dots with single spaces) become their typographic characters. Everything else is left as it was. So the result has no carriage return, tab or NUL, no leading or trailing line end, no run of more than two line ends and no line starting with a non-breaking space.',
  [I], 'all Unicode texts',
  'The suite has a few dozen pairs and one random check that it does not crash; the order of rewrites can re-create what an earlier one removed.',
  ['src/preproc/mod.rs', 'src/preproc/whitespace.rs', 'src/preproc/typography.rs'], 'a sequence of regular-expression replacements')
p('C13', 'Includes splice exactly the fetched pages',
  'Including replaces each include marker outside of other markers by the fetched page with its {$name} variables substituted, and leaves every other byte of the source as it was, in order. The reported list of pages is the list of markers in document order; a page the includer does not provide is replaced by the includer\'s own missing-page text, and an includer answering for the wrong page or with the wrong count is an error.',
  [I, C], 'all source texts and all includer answers',
  'Tests cover a few well-formed markers with one includer; byte-exact splicing with adjacent, malformed and nested markers needs all inputs.',
  ['src/includes/mod.rs', 'src/includes/parse.rs', 'src/includes/includer/mod.rs'], 'match ranges are collected and then replaced from the back')
p('C14', 'Nested lists follow the written depths',
  'Turning a sequence of items with depths and kinds into nested lists keeps every item, in order, exactly once; an item at depth d is inside exactly d nested lists below the outermost one, and neighbouring items share a list exactly when their depth and kind allow it (when the first item is deeper than the outermost level, the outermost list is an unordered one holding only deeper lists). Bullet lists, numbered lists, quotes and the table of contents all follow this rule.',
  [I], 'all finite sequences of (depth, kind, item)',
  'The suite lists about a dozen sequences; the rule is recursive and must hold for sequences of any length and any jumps.',
  ['src/parsing/depth.rs', 'src/parsing/rule/impls/list.rs', 'src/parsing/rule/impls/blockquote.rs'], 'a stack of open lists raised and lowered item by item')
p('C15', 'Page references parse and print consistently',
  'A reference ":site:page" names that site and page (its main page if nothing follows the colon), and any other non-blank text that does not start with a colon is a page on the current site; blank text, and text that starts with a colon but has no second one or only blanks between them, is refused. Blanks around the parts do not count. Printing a reference and parsing it again gives the same reference, and its fields are exactly the written parts.',
  [I], 'all strings',
  'Tests list about ten strings; colons in any position need all inputs.',
  ['src/data/page_ref.rs', 'src/tree/link.rs'], 'split on the leading and second colon')
p('C16', 'UTF-16 positions are exact',
  'The UTF-16 index map of a text maps every character boundary, including the end, to the number of UTF-16 code units before it and has no other entries. Spans in parse warnings are ordered, lie within the text and on character boundaries, so that they can be converted.',
  [I], 'all Unicode texts',
  'Random strings are tried for the map, but not the empty text or the spans of warnings.',
  ['src/utf16.rs', 'src/parsing/error.rs', 'src/parsing/parser.rs'], 'one pass over the characters with running totals')
p('C17', 'Conditional content follows tags and category exactly',
  'A condition list is satisfied exactly when every "+" word is a tag of the page, no "-" word is, and at least one plain word is if there are any. Category conditions apply the same rule to the category of the page, except that "+" there means the same as no prefix. The body of a satisfied condition appears in place of the block; the body of an unsatisfied one has no effect on the page at all.',
  [I, C], 'all condition strings, tag sets and categories',
  'Fixtures use one page with fixed tags; the rule is over all combinations.',
  ['src/parsing/element_condition.rs', 'src/parsing/rule/impls/block/blocks/iftags.rs', 'src/parsing/rule/impls/block/blocks/ifcategory.rs'], 'parsed conditions checked against page data')
p('C18', 'Block arguments keep their exact values',
  'A quoted argument value is the written text with exactly the escapes \\\\ \\" \\\' \\r \\n \\t resolved and every other backslash kept. A boolean argument accepts exactly true/false, t/f, 1/0 and yes/no in any letter case with surrounding spaces, and argument names are matched without regard to letter case, the last of several winning.',
  [I], 'all argument strings',
  'Tests list a few strings; escapes at the ends and next to each other, and case mixtures, need all inputs.',
  ['src/parsing/string.rs', 'src/parsing/boolean.rs', 'src/parsing/rule/impls/block/arguments.rs', 'src/parsing/rule/impls/block/parser.rs'], 'string unescaping and a case-insensitive argument map')
p('C19', 'Detached and serialised documents are the same document',
  'Making a parsed document independent of its source text yields an equal document that renders identically in every format. Serialising any document to JSON and reading it back loses nothing.',
  [I, C], 'all documents',
  'Tests round-trip no parsed document with all element kinds; a field forgotten in one of some forty kinds shows only in a document that uses it.',
  ['src/tree/mod.rs', 'src/tree/element/object.rs', 'src/tree/clone.rs'], 'field-wise copies of every tree type')
p('C20', 'Features are confined to the modes that allow them',
  'In forum posts and direct messages, page-only syntax (modules, includes, user-independent page features and tables of contents) produces no such element and is shown as text with a warning, and images and files given by local path are refused where local paths are not allowed. Each mode switches exactly the documented set of features, and in the modes for pages all of them are available.',
  [I, C], 'all modes and all documents',
  'Most fixtures run in page mode only; that no syntax variant slips through in the restricted modes is universal.',
  ['src/settings/mod.rs', 'src/parsing/check_step.rs', 'src/parsing/parser.rs', 'src/render/html/element/image.rs'], 'a setting table per mode consulted by each restricted rule')
p('C21', 'Reported links are the links of the page',
  'The lists of internal and external links reported with rendered HTML contain exactly the targets of the page links and external links of the document, once per occurrence, in document order. A link to a page of this or another site is internal, a link to a URL external, and fragments or script placeholders are neither.',
  [I, C], ALLDOC,
  'No test compares the reported lists with the rendered document for general input.',
  ['src/render/html/context.rs', 'src/data/backlinks.rs', 'src/render/html/element/link.rs'], 'links are recorded while they are rendered')
p('C22', 'Variables are lexically scoped',
  'A {$name} is replaced by the value given by the innermost enclosing inclusion that defines name, and by the outer one\'s value again after that inclusion ends; an undefined one is left as written. Scopes of sibling inclusions do not affect one another.',
  [H, I], 'all nestings of scopes and all names',
  'Fixtures have one level; restoration after leaving nested scopes is about all histories.',
  ['src/tree/variables.rs', 'src/render/html/element/include.rs', 'src/render/text/elements.rs'], 'a stack of maps searched from the innermost')
p('C23', 'Literal and comment markup is verbatim',
  'Text between @@ pairs or @< >@ on a line is shown exactly as written and none of it is treated as markup; code, HTML and math blocks carry exactly the source between their tags (math without blanks at its ends; a bare web address extends up to a blank, bar or bracket and may thus take in a closing mark, a quoted string up to its closing quote). A comment, and nothing around it, vanishes.',
  [I, C], 'all contents of literal spans, verbatim blocks and comments',
  'Fixtures use short contents; that no token inside is ever interpreted is universal.',
  ['src/parsing/rule/impls/raw.rs', 'src/parsing/rule/impls/comment.rs', 'src/parsing/rule/impls/block/parser.rs', 'src/parsing/collect/text.rs'], 'slices of the source between delimiters')
p('C24', 'Generated ids are unique and widgets wired correctly',
  'Within one rendering all generated ids are distinct, whether random or sequential. Every reference by id that the renderer generates (tabs to panels, table of contents to headings, footnote markers to notes, citations to entries) resolves to exactly one element of the right kind, and the n-th tab button belongs to the n-th panel.',
  [I, C], ALLDOC,
  'No test inspects the ids of a whole page with several widgets.',
  ['src/render/html/context.rs', 'src/render/html/random.rs', 'src/render/html/element/tabs.rs', 'src/render/html/element/footnotes.rs'], 'counters held by the rendering context')
p('C25', 'Markup names and levels map to the right elements',
  'Every documented name or marker of a block, module, alignment, heading level, link target or float means the same element whatever its letter case, and unknown ones are refused. The value survives being written to HTML or JSON and read back.',
  [I], 'all names, levels and markers',
  'Fixtures use each block once in lower case; aliases, case and range limits are sampled.',
  ['src/parsing/rule/impls/block/mapping.rs', 'src/tree/heading.rs', 'src/tree/align.rs', 'src/tree/anchor.rs', 'src/tree/list.rs'], 'name tables and value conversions')
p('C26', 'Interwiki links expand by the configured table',
  'A target "!prefix:path" or "prefix:path" whose prefix is configured becomes that site\'s URL with the path in the place of every "$$" and spaces written as %20; an unknown prefix, a missing colon or an empty path is no interwiki link. The first colon separates prefix and path.',
  [I, C], 'all targets and all interwiki tables',
  'Tests use the default table with a few targets.',
  ['src/settings/interwiki.rs', 'src/tree/link.rs'], 'prefix lookup and substitution')
p('C27', 'Plain-text rendering keeps exactly the visible text',
  'The plain-text rendering of a document contains the text of every visible element in document order, each block of it on lines of its own. Hidden elements are left out and each character of an invisible one is replaced by a space. No markup, attribute or style text appears in it.',
  [I, C], ALLDOC,
  'Few fixtures compare text output; nesting of prefixes and invisibility is universal.',
  ['src/render/text/elements.rs', 'src/render/text/context.rs'], 'a context with prefix and invisibility stacks')
p('C28', 'Paragraphs wrap exactly the inline content',
  'Consecutive inline content forms one paragraph, ended by a blank line, a block or the end; block elements are never inside paragraphs made this way and no such paragraph is empty. Concatenating paragraphs and blocks gives the parsed content in order, each item once.',
  [I, H], 'all sequences of inline, block and break items',
  'Fixtures show typical pages; arbitrary alternations of breaks, blocks and inline content are universal.',
  ['src/parsing/paragraph/mod.rs', 'src/parsing/paragraph/stack.rs'], 'a stack that collects inline content and closes it at boundaries')
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
