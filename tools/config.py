"""Which contract units and monitors decide which property."""
PROPS = {
 'C01': {'level': 'proof', 'units': ['parser', 'rules', 'paragraphs', 'collect', 'tokens', 'text', 'simple', 'spans', 'linkrules', 'rawrule', 'heads', 'nested', 'deflist', 'tables', 'dispatch', 'blockparse', 'blockhead', 'blockrule', 'blocks', 'blocks2', 'blocks3', 'blocks4', 'blocks5', 'blocks6', 'blocks7', 'blocks8', 'blockfuns'], 'note': 'Proved: no panic and termination of the functions in these units, among them every rule function and every block and module function, and the tables they are called through. Bounded: whole documents.'},
 'C02': {'level': 'proof', 'units': ['escape', 'meta', 'builder', 'html'], 'note': 'Proved: escaping for all strings; every rendering function and the builder write balanced markup whose text and attribute values are escaped, for all trees; metadata tags. Bounded: rendering of whole documents compared with a reference.'},
 'C03': {'level': 'proof', 'units': ['url', 'linkrules', 'attributes', 'builder', 'html', 'blocks3'], 'only': {'html': r'::(sprite|get_image_link|post_html|get_user_info|normalize_link|build_url|attr|attr_single|render)$|render_(iframe|html|user|embed|image|image_element|link|table_of_contents|element)$|shown_sound|target_ok|href_ok', 'blocks3': '(iframe|image)[.]rs'}, 'note': 'Proved: is_url(), dangerous_scheme(), normalize_href() for all strings; the rules for bare addresses, anchor links and single-bracket links; every href and src which the HTML renderer writes, for all trees, has a known scheme or is a path or fragment, or is the inert javascript:; with nothing behind it, or the placeholder picture; the blocks for frames and pictures refuse other addresses. Bounded: whole documents.'},
 'C04': {'level': 'proof', 'units': ['attributes', 'builder'], 'note': 'Proved: is_safe_attribute(), AttributeMap::from_arguments(), insert(), and the three tables, for all attribute names and values; the attributes of a tag are written as exactly those of the renderer and those of the map, each once, with their values. Bounded: whole documents.'},
 'C05': {'level': 'proof', 'units': ['ids', 'attributes', 'spans', 'blocks2', 'blocks3'], 'note': 'Proved: isolate_ids() and AttributeMap::isolate_id() for all strings; the anchor rule gives the name that is written, isolated if asked. Bounded: the ids of whole documents.'},
 'C06': {'level': 'proof', 'units': ['context', 'html', 'top', 'blocks4', 'blocks5'], 'note': 'Proved: rendering a footnote takes the next number and the contents filed under it, the list has one entry per footnote in order, for all trees; parse() appends a list exactly when the page has none. Bounded: whole documents.'},
 'C07': {'level': 'proof', 'units': ['top', 'depth', 'parser', 'html', 'heads'], 'note': 'Proved: parse() turns what was recorded of the headings into one nested list with the n-th entry linking to #toc<n> at its depth with its text, for all records; recording a heading; the n-th heading rendered gets the id toc<n>; the heading rule records each listed heading, at its depth with its text, before those inside it. Bounded: whole documents.'},
 'C08': {'level': 'proof', 'units': ['biblio', 'spans', 'blocks4'], 'note': 'Proved: Bibliography and BibliographyList: order, first entry wins, numbers from 1, for all pushes and look-ups. Bounded: footnotes and bibliographies of whole documents.'},
 'C09': {'level': 'proof', 'units': ['parser', 'rules', 'collect', 'simple', 'spans', 'linkrules', 'rawrule', 'heads', 'nested', 'deflist', 'tables', 'dispatch', 'blockparse', 'blockhead', 'blockrule', 'blocks', 'blocks2', 'blocks3', 'blocks4', 'blocks5', 'blocks6', 'blocks7', 'blocks8', 'blockfuns'], 'note': 'Proved: trying a rule that fails leaves no trace on the parser, marks and discards of footnotes and code, for all rules, given the stated contract on rule functions, which is itself proved of every rule function (dispatch) and every block function (blockfuns); collecting only adds. Bounded: whole documents.'},
 'C10': {'level': 'proof', 'units': ['tokens', 'text'], 'note': 'Proved: the lexer grammar, translated mechanically from lexer.pest, accepts every text, and extract_all() turns what it matched into tokens that lie in order, without gap or overlap, on character boundaries, whose texts put together are the input, and each of which is of the kind that its text looks like; tokenize() hands on just those. Assumed: pest follows the semantics of its grammars. Bounded: which of several possible tokens each text becomes.'},
 'C11': {'level': 'proof', 'units': ['rules', 'collect', 'simple', 'spans', 'linkrules', 'rawrule', 'heads', 'nested', 'deflist', 'tables', 'dispatch', 'blockparse', 'blockhead', 'blockrule', 'blocks', 'blocks2', 'blocks3', 'blocks4', 'blocks5', 'blocks6', 'blocks7', 'blocks8', 'blockfuns'], 'note': 'Proved: consuming moves on by at least one token or says why it cannot, and fails only at the end of the input or when nested too deeply; text that no rule takes is kept; every rule and block function that succeeds has taken what it says and goes no way but on. Bounded: whole documents.'},
 'C12': {'level': 'proof', 'units': ['preproc'], 'note': 'Proved: preprocess() is the stated sequence of rewrites and its result is in the stated normal form, for all texts, given what the thirteen regular expressions match. Bounded: what they match, by comparison with a reference that uses none.'},
 'C13': {'level': 'proof', 'units': ['includes', 'pageref'], 'note': 'Proved: include() replaces exactly the well-formed markers, each by the page it asked for with its variables put in, leaves every other character, reports the pages in order and refuses answers of the wrong number or for other pages, for all texts and all includers; replace_variables(); what a marker asks for, given what the two regular expressions and the grammar match. Bounded: those matches, by comparison with a reference.'},
 'C14': {'level': 'proof', 'units': ['depth', 'nonempty', 'nested', 'blocks6'], 'note': 'Proved: process_depths() and its stack for all sequences; the rules for lists and quotes nest exactly the lines they read, by their depths; the list blocks hold exactly the items written in them. Bounded: lists, quotes and tables of contents of whole documents.'},
 'C15': {'level': 'proof', 'units': ['pageref', 'link', 'linkrules'], 'note': 'Proved: PageRef::parse(), its constructors and printing, and what is read back, for all strings; LinkLocation::parse(); the rules for [..] and [[[..]]] links take exactly the tokens between their brackets. Bounded: links of whole documents.'},
 'C16': {'level': 'proof', 'units': ['utf16', 'warnings'], 'note': 'Proved: the index map for all strings; a warning has the span of the token it is made for, the tokens of a text have spans in order, within the text and on character boundaries, and such a warning is converted to the UTF-16 positions of its ends. Bounded: the warnings of whole documents.'},
 'C17': {'level': 'proof', 'units': ['cond', 'blocks5'], 'note': 'Proved: ElementCondition::parse() and the checks for all specifications, tag sets and categories; the iftags and ifcategory blocks keep their bodies exactly when the condition holds. Bounded: splicing of bodies in whole documents.'},
 'C18': {'level': 'proof', 'units': ['args', 'arguments', 'blockhead', 'blocks3', 'blocks4', 'blocks2', 'blocks5', 'blocks6', 'blocks8'], 'note': 'Proved: parse_string(), parse_boolean(), Arguments::insert(), get(), get_bool(), get_value() for all strings; the head of a block is read as the arguments written in it, the last of a name winning; every block and module takes its fields from the arguments documented for it. Bounded: blocks of whole documents.'},
 'C19': {'level': 'proof', 'units': ['owned', 'variables', 'attributes'], 'note': 'Proved: every to_owned() of the tree, from SyntaxTree down to strings, returns a value equal to its argument, for all trees. Bounded: serialising and deserialising, whole documents rendered before and after.'},
 'C20': {'level': 'proof', 'units': ['modes', 'parser', 'blocks3', 'blocks4', 'blocks8', 'includes', 'html'], 'only': {'html': r'get_image_link|render_image$', 'blocks3': 'toc[.]rs', 'blocks4': 'blocks/include', 'blocks8': 'module/rule', 'includes': r'::include$'}, 'note': 'Proved: from_mode() allows in each mode what is documented for it; check_page_syntax() and what the parser hands on of the settings; modules, tables of contents and included elements are refused, and includes left alone, without page syntax; pictures from files are shown only where local paths are allowed. Bounded: whole documents under all settings.'},
 'C21': {'level': 'proof', 'units': ['context', 'html'], 'only': {'html': r'render_(link|element|elements|image|image_element)$|noted|::render$'}, 'note': 'Proved: add_link() files every link under the right list, render_link() reports its target exactly once, and nothing else ever changes or drops what was reported, for all trees. Bounded: the lists of whole documents.'},
 'C22': {'level': 'proof', 'units': ['variables'], 'note': 'Proved: VariableScopes for all pushes, pops and look-ups. Bounded: rendering of whole documents.'},
 'C23': {'level': 'proof', 'units': ['collect', 'text', 'simple', 'spans', 'rawrule', 'blocks3', 'blocks8'], 'only': {'simple': 'comment[.]rs'}, 'note': 'Proved: collecting takes exactly the tokens up to the first that meets a closing condition, and the text kept is the source text of those tokens, for all inputs, given the stated contract on rule functions; the rules for raw text and inline math keep what is written between their delimiters, and the blocks for code, HTML, embedded code, math and style sheets what is written in their bodies. Bounded: raw text, code, HTML and math of whole documents.'},
 'C24': {'level': 'proof', 'units': ['context', 'html'], 'note': 'Proved: footnotes, equations, headings and code blocks are numbered by counters that never go back, each taken exactly once per element; tab buttons and panels are paired. Bounded: the ids of whole documents.'},
 'C25': {'level': 'proof', 'units': ['blockmap', 'names', 'blockrule', 'floats', 'blocks', 'blocks2', 'blocks3', 'blocks4', 'blocks5', 'blocks6', 'blocks7', 'blocks8', 'blockfuns'], 'note': 'Proved: the names under which every block and module is found, in any case, the maps that are built from them, and the names and tags of headings, containers, alignments, floats, anchors, links, layouts, for all strings; every function that a block or module name leads to makes the element the documentation names. Bounded: blocks of whole documents.'},
 'C26': {'level': 'proof', 'units': ['interwiki', 'modes', 'link', 'linkrules'], 'only': {'modes': 'default_interwiki|from_mode'}, 'note': 'Proved: the default table is the documented one; InterwikiSettings::build() and LinkLocation::parse_interwiki() for all strings; the link rules that ask for it. Bounded: links of whole documents.'},
 'C27': {'level': 'proof', 'units': ['plain', 'variables', 'pageref'], 'note': 'Proved: TextRender::render() of every tree without partial elements is the text that the specification assigns to it. Bounded: whole documents.'},
 'C28': {'level': 'proof', 'units': ['elements', 'paragraphs', 'simple', 'spans', 'linkrules', 'rawrule', 'heads', 'nested', 'deflist', 'tables', 'dispatch', 'blockparse', 'blocks', 'blocks2', 'blocks3', 'blocks4', 'blocks5', 'blocks6', 'blocks7', 'blocks8', 'blockfuns'], 'note': 'Proved: the paragraph-safety tables of all elements; gathering into paragraphs: every element once and in order, no empty paragraph, only inline elements in one, for all inputs, given the contract on rule functions, which is proved of all of them and of all block functions. Bounded: the trees of whole documents.'},
}
NOT_APPLICABLE = {}
